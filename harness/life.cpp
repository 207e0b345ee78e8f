// Life cycle of the bus tree: start/stop, naming, detaching, destroying, re-entrant callbacks.
#define HARNESS_MAIN
#include "common.h"
#include <lamppost/exceptions/ArgumentNullException.h>
#include <lamppost/exceptions/DuplicateKeyException.h>
#include <lamppost/exceptions/KeyNotFoundException.h>

namespace
{
  using lp::exceptions::ArgumentNullException;
  using lp::exceptions::DuplicateKeyException;
  using lp::exceptions::KeyNotFoundException;

  // Starting is "announced" before the thread enters Start().
  struct Run
  {
    BusPtr bus;
    std::thread th;
    explicit Run(BusPtr b) : bus(b) { go(); }
    void go() { Bus* b = bus.get(); th = std::thread([b] { b->Start(); }); }
    void wait(const char* what)
    {
      long t0 = mc_now_ms();
      th.join();
      long d = mc_now_ms() - t0;
      MC_CHECK(d <= 1000, "stop-late", "%s: the bus needed %ld ms to stop", what, d);
    }
    ~Run() { if(th.joinable()) th.join(); }
  };

  // ------------------------------------------------------------------ start / stop
  // Stop at every point around Start, from another thread: the run ends; the next run works
  void stop_race()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s = recorder(c, "/t", 1);
    PubPtr p = root->CreatePublisher("/t");
    {
      Run r(root);
      root->Stop();
      r.wait("first run");
    }
    publish(p, 1, 1);            // published while stopped
    {
      Run r(root);
      publish(p, 1, 2);
      settle();
      expect_received(1, {1, 2}, "restart", "second run");
      root->Stop();
      r.wait("second run");
    }
    mc_outcome("ok");
  }

  // publish | stop | restart: nothing delivered twice, nothing overtaken, nothing delivered after Start() returned
  void stop_publish()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s = recorder(root, "/t", 1);
    SubPtr s2 = recorder(root, "/t", 2);
    PubPtr p = root->CreatePublisher("/t");
    int done;
    {
      Run r(root);
      std::thread t1([&] { for(int i = 1; i <= 3; i++) publish(p, 1, i); });
      root->Stop();
      log_ev(EV_MARK, 9, 1);
      r.wait("run with traffic");
      done = log_ev(EV_MARK, 9, 2);
      t1.join();
    }
    settle();
    {
      McQuiet q;
      for(int i = done; i < LOG.n; i++) MC_CHECK(LOG.e[i].kind != EV_RECV, "stopped-delivery", "a message was delivered although no thread runs the bus");
      int stopped = find_ev(EV_MARK, 9, 1);
      for(int m = 1; m <= 3; m++)
        if(find_ev(EV_PUB_BEGIN, 1, m) > stopped)
          MC_CHECK(count_ev(EV_RECV, 1, m) == 0, "stopped-delivery", "message %d was published after Stop had returned and delivered by the same run", m);
    }
    publish(p, 1, 4);
    {
      Run r(root);
      settle();
      root->Stop();
      r.wait("second run");
    }
    McQuiet q;
    for(int w = 1; w <= 2; w++)
    {
      std::vector<int> got = received_list(w);
      for(size_t i = 1; i < got.size(); i++) MC_CHECK(got[i] > got[i - 1], "restart", "messages were repeated or reordered across a restart: [%s]", received(w).c_str());
      MC_CHECK(!got.empty() && got.back() == 4, "restart", "a message published while the bus was stopped was not delivered by the next run: [%s]", received(w).c_str());
      for(int m = 1; m <= 3; m++)
        if(find_ev(EV_PUB_BEGIN, 1, m) > done)
          MC_CHECK(count_ev(EV_RECV, w, m) == 1, "restart", "message %d, published after the first run had ended, was lost", m);
    }
    outcome_of({1});
  }

  // two threads stop the same run
  void stop_twice()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s = recorder(c, "/t", 1);
    PubPtr p = root->CreatePublisher("/t");
    Run r(root);
    publish(p, 1, 1);
    std::thread t1([&] { root->Stop(); });
    root->Stop();
    t1.join();
    r.wait("stopped twice");
    outcome_of({1});
  }

  // a callback stops the bus it is called from (or the root, from a child)
  void stop_callback()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    int where = mc_choose(3, "subscriber on");
    int which = mc_choose(2, "stops");
    BusPtr on = where == 0 ? root : c;
    BusPtr victim = which == 0 ? root : c;
    SubPtr s = on->CreateSubscriber("/t", [&](Datagram d) {
      log_ev(EV_RECV, 1, number_of(d));
      victim->Stop();
      log_ev(EV_MARK, 9, 1);
      if(where == 2) c->Stop();
    });
    SubPtr sc = recorder(c, "/t", 2);
    SubPtr sr = recorder(root, "/t", 3);
    PubPtr p = root->CreatePublisher("/t");
    Run r(root);
    publish(p, 1, 1);
    publish(p, 1, 2);
    std::this_thread::sleep_for(std::chrono::milliseconds(350));
    int before = count_ev(EV_RECV, 3, -1);
    publish(p, 1, 3);
    settle();
    if(which == 0)
    {
      MC_CHECK(count_ev(EV_RECV, 3, 3) == 0, "stop-callback", "the stopped root bus went on delivering");
      MC_CHECK(count_ev(EV_RECV, 1, -1) <= 1, "stop-callback", "the callback that stopped the bus was called again");
    }
    else
    {
      MC_CHECK(count_ev(EV_RECV, 3, 3) == 1 && before == 2, "stop-callback", "stopping a child bus disturbed the root bus");
      MC_CHECK(count_ev(EV_RECV, 2, 3) == 0 && count_ev(EV_RECV, 2, 2) == 0, "stop-callback", "the stopped child bus went on delivering");
    }
    root->Stop();
    r.wait("stopped by a callback");
    outcome_of({1, 2, 3});
  }

  // stopping a child mutes its subtree only; starting it resumes
  void stop_child()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr a = root->CreateChildBus("a");
    BusPtr g = a->CreateChildBus("g");
    BusPtr b = root->CreateChildBus("b");
    SubPtr s0 = recorder(root, "/t", 1);
    SubPtr s1 = recorder(a, "/t", 2);
    SubPtr s2 = recorder(g, "/t", 3);
    SubPtr s3 = recorder(b, "/t", 4);
    PubPtr p = root->CreatePublisher("/t");
    PubPtr pa = a->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p, 1, 1); });
    a->Stop();
    log_ev(EV_MARK, 9, 1);
    publish(pa, 2, 2);           // a stopped child may still publish
    t1.join();
    settle();
    a->Start();
    publish(p, 1, 3);
    settle();
    run.stop();
    expect_received(1, {1, 2, 3}, "stop-child", "root bus");
    expect_received(4, {1, 2, 3}, "stop-child", "sibling of the stopped child");
    McQuiet q;
    int mark = find_ev(EV_MARK, 9, 1);
    for(int w = 2; w <= 3; w++)
    {
      MC_CHECK(count_ev(EV_RECV, w, 2) == 0, "stop-child", "a stopped child bus delivered");
      MC_CHECK(count_ev(EV_RECV, w, 3) == 1, "stop-child", "a resumed child bus did not deliver");
      if(find_ev(EV_PUB_BEGIN, 1, 1) > mark) MC_CHECK(count_ev(EV_RECV, w, 1) == 0, "stop-child", "a stopped child bus delivered");
    }
    outcome_of({2, 3});
  }

  // stop of a child against its start, from two threads
  void stop_start_child()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr a = root->CreateChildBus("a");
    SubPtr s = recorder(a, "/t", 1);
    SubPtr s2 = recorder(root, "/t", 2);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { a->Stop(); publish(p, 1, 1); });
    a->Start();
    publish(p, 2, 2);
    t1.join();
    settle();
    a->Start();
    publish(p, 2, 3);
    settle();
    run.stop();
    expect_received(2, {1, 2, 3}, "stop-child", "root bus");
    MC_CHECK(count_ev(EV_RECV, 1, 3) == 1, "stop-child", "the restarted child bus does not deliver");
    for(int m = 1; m <= 2; m++) MC_CHECK(count_ev(EV_RECV, 1, m) <= 1, "stop-child", "duplicate delivery");
    outcome_of({1});
  }

  // the whole life in one thread each: several complete runs
  void stop_cycles()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s = recorder(c, "/t", 1);
    PubPtr p = c->CreatePublisher("/t");
    std::vector<int> want;
    for(int i = 1; i <= 4; i++)
    {
      publish(p, 1, 10 * i);
      Run r(root);
      publish(p, 1, 10 * i + 1);
      settle();
      root->Stop();
      r.wait("cycle");
      want.push_back(10 * i); want.push_back(10 * i + 1);
      expect_received(1, want, "restart", "repeated runs");
    }
  }

  // the wall clock is set while the bus runs idle: Stop is as prompt as ever, messages go on
  void stop_clock()
  {
    static const long JUMP[] = {3600000, -3600000, 50, -50};
    long jump = JUMP[mc_choose(4, "jump")];
    bool quiet = mc_choose(2, "publications after it") == 1;
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s = recorder(c, "/t", 1);
    PubPtr p = c->CreatePublisher("/t");
    std::vector<int> want;
    for(int i = 1; i <= 2; i++)
    {
      Run r(root);
      publish(p, 1, 2 * i - 1);
      std::this_thread::sleep_for(std::chrono::milliseconds(40));
      mc_clock_jump(jump);
      // without anything in between, Stop is all that can end the wait
      if(!quiet) { std::this_thread::sleep_for(std::chrono::milliseconds(40)); publish(p, 1, 2 * i); settle(); }
      root->Stop();
      r.wait("the wall clock was set");
      want.push_back(2 * i - 1); if(!quiet) want.push_back(2 * i);
      expect_received(1, want, "restart", "the wall clock was set");
    }
  }

  // stopping takes all levels along; restarting too
  void stop_sizes()
  {
    int shape = mc_choose(3, "wide, deep, binary");
    int n = some_count(shape == 1 ? 65 : 129);
    int runs = mc_choose(2, "runs") ? 5 : 2;
    BusPtr root = std::make_shared<Bus>("root");
    std::vector<BusPtr> all{root};
    for(int i = 1; i <= n; i++) all.push_back(all[shape == 0 ? 0 : shape == 1 ? (size_t)i - 1 : (size_t)(i - 1) / 2]->CreateChildBus("n" + std::to_string(i)));
    static long got[600];
    static int stopped;
    memset(got, 0, sizeof got);
    stopped = 1;
    std::vector<SubPtr> subs;
    for(size_t i = 0; i < all.size(); i++) subs.push_back(all[i]->CreateSubscriber("/t", [i](Datagram d) { McQuiet q; MC_CHECK(!stopped, "stopped-delivery", "a callback ran although nothing runs the bus"); int k = number_of(d); MC_CHECK(k == got[i] + 1, "restart", "bus %d received %d after %ld", (int)i, k, got[i]); got[i] = k; }));
    PubPtr p = all.back()->CreatePublisher("/t");
    int m = 0;
    for(int k = 0; k < runs; k++)
    {
      p->Publish(numbered(++m));
      { McQuiet q; stopped = 0; }
      Run r(root);
      p->Publish(numbered(++m));
      settle();
      for(size_t i = 0; i < all.size(); i++) MC_CHECK(got[i] == m, "restart", "run %d: bus %d of %d got %ld of %d messages", k, (int)i, n, got[i], m);
      root->Stop();
      r.wait("large tree");
      { McQuiet q; stopped = 1; }
      settle();
    }
    mc_outcome("ok");
  }

  // ------------------------------------------------------------------ names
  void name_race()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr got[2], looked[3];
    int dup[2] = {0, 0}, miss = 0;
    auto create = [&](int i) {
      try { got[i] = root->CreateChildBus("x"); }
      catch(DuplicateKeyException&) { dup[i] = 1; looked[i] = root->GetChildBus("x"); }
      log_ev(EV_MARK, 1 + i, dup[i]);
    };
    std::thread t1([&] { create(0); });
    std::thread t2([&] {
      int winner_known = find_ev(EV_MARK, 1, 0) >= 0 || find_ev(EV_MARK, 2, 0) >= 0;
      try { looked[2] = root->GetChildBus("x"); }
      catch(KeyNotFoundException&) { miss = 1; MC_CHECK(!winner_known, "child-name", "GetChildBus does not find an existing child"); }
    });
    create(1);
    t1.join();
    t2.join();
    MC_CHECK(dup[0] + dup[1] == 1, "child-name", "%d of 2 creations of the same name failed", dup[0] + dup[1]);
    BusPtr x = root->GetChildBus("x");
    for(BusPtr b : {got[0], got[1], looked[0], looked[1], looked[2]}) MC_CHECK(!b || b == x, "child-name", "two buses answer to one name");
    SubPtr s = recorder(x, "/t", 1);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    publish(p, 1, 1);
    settle();
    run.stop();
    expect_received(1, {1}, "child-name", "the child created in a race is connected once");
    mc_outcome(miss ? "missed" : "found");
  }

  void name_lookup()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr y = root->CreateChildBus("y");
    std::thread t1([&] { for(const char* n : {"a", "b"}) { BusPtr b = root->CreateChildBus(n); MC_CHECK(root->GetChildBus(n) == b, "child-name", "a child just created is not found"); } });
    for(int i = 0; i < 2; i++)
    {
      MC_CHECK(root->GetChildBus("y") == y, "child-name", "an existing child is not found");
      bool threw = false;
      try { root->GetChildBus("nope"); } catch(KeyNotFoundException&) { threw = true; }
      MC_CHECK(threw, "child-name", "an unknown child was found");
    }
    t1.join();
    // the failed lookups left nothing behind
    BusPtr n = root->CreateChildBus("nope");
    MC_CHECK(root->GetChildBus("nope") == n, "child-name", "lookup of a new child");
  }

  // every sequence of creations and lookups over a small tree against a model
  void name_sequences()
  {
    BusPtr root = std::make_shared<Bus>("root");
    std::vector<BusPtr> bus{root};
    std::vector<std::map<std::string, int>> kids(1);
    const char* names[] = {"a", "b", ""};
    for(int step = 0; step < 4; step++)
    {
      int b = mc_choose((int)bus.size(), "bus");
      int op = mc_choose(2, "op");
      std::string n = names[mc_choose(3, "name")];
      int res = -9;   // -1 duplicate, -2 not found, -3 null argument
      BusPtr r;
      try { r = op ? bus[b]->GetChildBus(n) : bus[b]->CreateChildBus(n); res = 0; }
      catch(DuplicateKeyException&) { res = -1; }
      catch(KeyNotFoundException&) { res = -2; }
      catch(ArgumentNullException&) { res = -3; }
      McQuiet q;
      int want;
      bool has = kids[b].count(n);
      if(op == 0) want = n.empty() ? -3 : has ? -1 : 0;
      else want = has ? 0 : -2;
      MC_CHECK(res == want, "child-name", "step %d: %s(\"%s\") on bus %d gave %d, the model says %d", step, op ? "GetChildBus" : "CreateChildBus", n.c_str(), b, res, want);
      if(res == 0 && op == 0)
      {
        MC_CHECK(r && r->GetIdentifier() == n, "child-name", "a child created as \"%s\" is called \"%s\"", n.c_str(), r ? r->GetIdentifier().c_str() : "-");
        bus.push_back(r); kids.push_back({}); kids[b][n] = (int)bus.size() - 1;
      }
      if(res == 0 && op == 1) MC_CHECK(r == bus[kids[b][n]], "child-name", "GetChildBus returned another bus");
    }
  }

  // many children, names that differ little
  std::string nth_name(int scheme, int i)
  {
    McQuiet q;
    static const char* odd[] = {"a", "A", "a ", " a", "a/", "/a", "a/b", "a.b", "a:b", ".", "..", "*", "**", "?", "\x01", "\xc3\xa4", "a\n", "child", "root", "0", "00", "-1", "null"};
    switch(scheme)
    {
      case 0: return "child" + std::to_string(i);
      case 1: return std::string((size_t)i + 1, 'x');
      case 2: return std::string(40, 'p') + std::to_string(i);
      case 3: return std::to_string(i) + std::string(300, 's');
      case 4: return std::string("a\0b", 3) + std::to_string(i);
      default: return i < (int)(sizeof odd / sizeof *odd) ? odd[i] : std::string(odd[i % 23]) + "#" + std::to_string(i / 23);
    }
  }
  void name_sizes()
  {
    int scheme = mc_choose(6, "names");
    int n = some_count(scheme == 0 || scheme == 5 ? 101 : 65);
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr parent = mc_choose(2, "parent") ? root->CreateChildBus("parent") : root;
    std::vector<BusPtr> kids;
    auto lookup = [&](BusPtr b, const std::string& name) -> BusPtr { try { return b->GetChildBus(name); } catch(KeyNotFoundException&) { return nullptr; } };
    for(int i = 0; i < n; i++)
    {
      std::string name = nth_name(scheme, i);
      MC_CHECK(!lookup(parent, name), "child-name", "a child called \"%s\" was found before it was created (%d children)", name.substr(0, 50).c_str(), i);
      kids.push_back(parent->CreateChildBus(name));
      MC_CHECK(kids.back() && kids.back()->GetIdentifier() == name, "child-name", "a child created as \"%s\" has another name", name.substr(0, 50).c_str());
    }
    for(int i = 0; i < n; i++)
    {
      std::string name = nth_name(scheme, i);
      MC_CHECK(lookup(parent, name) == kids[i], "child-name", "child %d of %d is not found under its name", i, n);
      bool dup = false;
      try { parent->CreateChildBus(name); } catch(DuplicateKeyException&) { dup = true; }
      MC_CHECK(dup, "child-name", "a second child with the name of child %d of %d was created", i, n);
      if(parent != root) MC_CHECK(!lookup(root, name), "child-name", "a bus two levels below was found");
      MC_CHECK(!lookup(kids[i], name), "child-name", "a bus is its own child");
    }
    for(const std::string& bad : {nth_name(scheme, n), nth_name(scheme, 0) + "!", std::string("nope")}) MC_CHECK(!lookup(parent, bad), "child-name", "an unknown child was found");
    // each of them is a bus of its own, connected to the parent
    static int got;
    got = 0;
    SubPtr s = root->CreateSubscriber("/t", [](Datagram) { McQuiet q; got++; });
    Run r(root);
    for(BusPtr& k : kids) k->CreatePublisher("/t")->Publish(numbered(1));
    settle();
    root->Stop();
    r.wait("many children");
    MC_CHECK(got == n, "child-name", "%d of %d messages of the children arrived", got, n);
    mc_outcome("ok");
  }

  // ------------------------------------------------------------------ detach and destruction
  void detach_race()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    BusPtr g = c->CreateChildBus("g");
    SubPtr s = recorder(root, "/t", 1);
    PubPtr pc = c->CreatePublisher("/t");
    PubPtr pg = g->CreatePublisher("/t");
    PubPtr pr = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(pc, 1, 1); publish(pg, 2, 2); publish(pg, 2, 3); });
    c->Detach();
    int mark = log_ev(EV_MARK, 9, 0);
    t1.join();
    publish(pc, 1, 4);
    publish(pg, 2, 5);
    publish(pr, 3, 6);
    settle();
    run.stop();
    McQuiet q;
    for(int m = 1; m <= 5; m++)
    {
      int w = m == 1 || m == 4 ? 1 : 2;
      if(find_ev(EV_PUB_BEGIN, w, m) > mark) MC_CHECK(count_ev(EV_RECV, 1, m) == 0, "detach", "message %d was published from a detached bus and delivered", m);
      MC_CHECK(count_ev(EV_RECV, 1, m) <= 1, "detach", "duplicate delivery");
    }
    MC_CHECK(count_ev(EV_RECV, 1, 6) == 1, "detach", "detaching a child stopped the root bus from delivering");
    outcome_of({1});
  }

  // the same when parts of the subtree were stopped, detached or have participants of any kind before
  void detach_stopped()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    BusPtr g = c->CreateChildBus("g");
    BusPtr h = c->CreateChildBus("h");
    BusPtr gg = g->CreateChildBus("gg");
    BusPtr all[] = {c, g, h, gg};
    SubPtr s = recorder(root, "/t", 1);
    std::vector<PubPtr> pubs;
    for(BusPtr& b : all) pubs.push_back(b->CreatePublisher("/t"));
    PubPtr pr = root->CreatePublisher("/t");
    int stopped = mc_choose(16, "stopped");
    int before = mc_choose(3, "detached before");
    Runner run(root);
    for(int i = 0; i < 4; i++) publish(pubs[i], 1, i + 1);
    settle();
    for(int i = 0; i < 4; i++) if(stopped >> i & 1) all[i]->Stop();
    if(before == 1) g->Detach();
    if(before == 2) gg->Detach();
    c->Detach();
    for(int i = 0; i < 4; i++) publish(pubs[i], 1, i + 11);
    for(int i = 0; i < 4; i++) all[i]->Publish(Message("x", "/t", numbered(i + 21)));
    for(int i = 0; i < 4; i++) { PubPtr p = all[i]->CreatePublisher("/t"); publish(p, 1, i + 31); }
    for(BusPtr& b : all) b->Start();
    for(int i = 0; i < 4; i++) publish(pubs[i], 1, i + 41);
    publish(pr, 1, 51);
    settle();
    run.stop();
    expect_received(1, {1, 2, 3, 4, 51}, "detach", "root after the detachment of a partly stopped subtree");
  }

  // a child is created below a bus that is being detached: it must not stay connected
  void detach_create()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s = recorder(root, "/t", 1);
    BusPtr g;
    Runner run(root);
    std::thread t1([&] { try { g = c->CreateChildBus("g"); mc_outcome("created"); } catch(ArgumentNullException&) { mc_outcome("refused"); } });
    c->Detach();
    t1.join();
    if(g) { PubPtr p = g->CreatePublisher("/t"); publish(p, 1, 1); }
    PubPtr pc = c->CreatePublisher("/t");
    publish(pc, 1, 2);
    settle();
    run.stop();
    expect_received(1, {}, "detach", "a child created during the detachment");
  }

  // the tree goes away while a thread still publishes through what it holds
  void destroy_publish()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    BusPtr g = c->CreateChildBus("g");
    SubPtr s = recorder(root, "/t", 1);
    int who = mc_choose(3, "publisher of");
    PubPtr p = (who == 0 ? root : who == 1 ? c : g)->CreatePublisher("/t");
    int stopped = mc_choose(3, "stopped before");
    if(stopped == 1) c->Stop();
    if(stopped == 2) g->Stop();
    if(mc_choose(2, "keep child")) { g = nullptr; c = nullptr; }
    std::thread t1([&] { publish(p, 1, 1); publish(p, 1, 2); });
    root = nullptr;
    log_ev(EV_MARK, 9, 0);
    if(c) c = nullptr;
    t1.join();
    publish(p, 1, 3);
    if(g) g = nullptr;
    publish(p, 1, 4);
    p = nullptr;
    s = nullptr;
    expect_received(1, {}, "destroy", "a bus that never ran");
  }

  // a running tree is stopped and destroyed while another thread uses a child
  void destroy_running()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s = recorder(c, "/t", 1);
    PubPtr p = c->CreatePublisher("/t");
    std::thread t1([&] {
      publish(p, 1, 1);
      SubPtr x = recorder(c, "/t", 2);
      publish(p, 1, 2);
      c->DeleteSubscriber(x);
      c->DeletePublisher(p);
    });
    {
      Run r(root);
      root->Stop();
      r.wait("destroy");
    }
    root = nullptr;
    t1.join();
    for(int m = 1; m <= 2; m++) for(int w = 1; w <= 2; w++) MC_CHECK(count_ev(EV_RECV, w, m) <= 1, "destroy", "duplicate delivery");
    outcome_of({1, 2});
  }

  // wide and deep subtrees
  struct Wide
  {
    std::vector<BusPtr> all;      // [0]: the child of the root
    std::vector<PubPtr> pubs;
    void make(BusPtr root, int shape, int n)
    {
      all.push_back(root->CreateChildBus("c"));
      for(int i = 1; i < n; i++)
      {
        BusPtr up = shape == 0 ? all[0] : shape == 1 ? all.back() : all[(size_t)(i - 1) / 2];
        all.push_back(up->CreateChildBus("n" + std::to_string(i)));
      }
      for(BusPtr& b : all) pubs.push_back(b->CreatePublisher("/t"));
    }
  };
  void detach_sizes()
  {
    int shape = mc_choose(3, "wide, deep, binary");
    int n = some_count(shape == 1 ? 65 : 129);
    int hold = mc_choose(2, "keep the buses");
    BusPtr root = std::make_shared<Bus>("root");
    Wide w;
    w.make(root, shape, n);
    SubPtr s = recorder(root, "/t", 1), s2 = recorder(root, "/u", 2);
    PubPtr pr = root->CreatePublisher("/u");
    std::vector<int> want;
    Run r(root);
    for(int i = 0; i < n; i++) { publish(w.pubs[i], 1, i); want.push_back(i); }
    settle();
    BusPtr c = w.all[0];
    c->Detach();
    if(!hold) { w.all.clear(); c = nullptr; }
    for(int i = 0; i < n; i++) publish(w.pubs[i], 1, 1000 + i);
    for(size_t i = 0; i < w.all.size(); i++) w.all[i]->Publish(Message("x", "/t", numbered(3000)));
    publish(pr, 2, 7);
    settle();
    root->Stop();
    r.wait("detached");
    expect_received(1, want, "detach", "root after a large subtree was detached");
    expect_received(2, {7}, "detach", "root after a large subtree was detached");
    mc_outcome("ok");
  }
  // the tree goes away below publishers that are still held
  void destroy_sizes()
  {
    int shape = mc_choose(3, "wide, deep, binary");
    int n = some_count(shape == 1 ? 65 : 129);
    int first = mc_choose(3, "first to go");     // root, subtree, publishers
    BusPtr root = std::make_shared<Bus>("root");
    Wide w;
    w.make(root, shape, n);
    SubPtr s = recorder(root, "/t", 1);
    {
      Run r(root);
      for(int i = 0; i < n; i++) publish(w.pubs[i], 1, i);
      settle();
      root->Stop();
      r.wait("destroy");
    }
    if(first == 0) root = nullptr;
    if(first == 1) w.all.clear();
    if(first == 2) w.pubs.clear();
    for(size_t i = 0; i < w.pubs.size(); i++) publish(w.pubs[i], 1, 1000 + (int)i);
    w.all.clear();
    root = nullptr;
    for(size_t i = 0; i < w.pubs.size(); i++) publish(w.pubs[i], 1, 2000 + (int)i);
    std::vector<int> want;
    for(int i = 0; i < n; i++) want.push_back(i);
    expect_received(1, want, "destroy", "before the destruction");
    mc_outcome("ok");
  }

  // everything allocated for a bus tree is released with it
  void tree_once(int kind)
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    BusPtr g = c->CreateChildBus("g");
    SubPtr s = recorder(root, "/t", 1);
    SubPtr s2 = g->CreateSubscriber("/t");
    s2->SetMessageCallback([root](Message m) { });   // not cyclic in use below: replaced
    s2->SetMessageCallback([](Message m) { });
    PubPtr p = g->CreatePublisher("/t");
    for(int i = 0; i < 3; i++) p->Publish(numbered(i));
    if(kind == 1)
    {
      for(int i = 0; i < 3; i++) { SubPtr x = recorder(c, "/t", 3); c->DeleteSubscriber(x); PubPtr y = c->CreatePublisher("/t"); y->Publish(numbered(7)); c->DeletePublisher(y); }
      for(int i = 0; i < 2; i++) { try { c->CreateChildBus("g"); } catch(DuplicateKeyException&) {} try { c->GetChildBus("h"); } catch(KeyNotFoundException&) {} }
    }
    if(kind == 2)
    {
      Run r(root);
      settle();
      root->Stop();
      r.wait("leak");
    }
    if(kind == 3) c->Detach();
  }
  void destroy_releases()
  {
    int kind = mc_choose(4, "kind");
    tree_once(kind);
    long a = mc_heap_blocks();
    for(int i = 0; i < 3; i++) tree_once(kind);
    long b = mc_heap_blocks();
    MC_CHECK(a == b, "destroy-leak", "creating and destroying a bus tree 3 times left %ld heap blocks behind (kind %d)", b - a, kind);
  }
  // the same for action participants
  void destroy_actions_once()
  {
    BusPtr root = std::make_shared<Bus>("root");
    std::shared_ptr<lp::bus::ActionProvider> pr = root->CreateActionProvider("/a", [](std::shared_ptr<lp::bus::ActionProvider>, std::string, Datagram) {});
    std::shared_ptr<lp::bus::ActionConsumer> co = root->CreateActionConsumer("/a");
  }
  void destroy_actions()
  {
    destroy_actions_once();
    long a = mc_heap_blocks();
    for(int i = 0; i < 3; i++) destroy_actions_once();
    long b = mc_heap_blocks();
    MC_CHECK(a == b, "destroy-leak-actions", "3 buses with an action provider and consumer left %ld heap blocks behind", b - a);
  }

  // ------------------------------------------------------------------ re-entrancy
  void reenter()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    int where = mc_choose(2, "callback on");
    BusPtr on = where ? c : root;
    int op = mc_choose(13, "operation");
    bool done = false;
    PubPtr p = root->CreatePublisher("/t");
    PubPtr extra = on->CreatePublisher("/t");
    SubPtr before = recorder(on, "/t", 1);
    SubPtr self, after, fresh;
    BusPtr kid;
    PubPtr fp;
    std::shared_ptr<lp::bus::ActionProvider> ap;
    std::shared_ptr<lp::bus::ActionConsumer> ac;
    self = on->CreateSubscriber("/t", [&](Datagram d) {
      log_ev(EV_RECV, 2, number_of(d));
      if(done) return;
      done = true;
      switch(op)
      {
        case 0: publish(p, 2, 50); break;
        case 1: on->DeleteSubscriber(self); break;
        case 2: on->DeleteSubscriber(after); break;
        case 3: on->DeleteSubscriber(before); break;
        case 4: fresh = recorder(on, "/t", 4); break;
        case 5: kid = on->CreateChildBus("kid"); fresh = recorder(kid, "/t", 4); break;
        case 6: MC_CHECK(root->GetChildBus("c") == c, "reenter", "lookup from a callback"); break;
        case 7: on->DeletePublisher(extra); break;
        case 8: fp = on->CreatePublisher("/t"); publish(fp, 2, 50); on->DeletePublisher(fp); break;
        case 9: MC_CHECK(on->ContainsSubscriber(self) && on->ContainsPublisher(extra), "reenter", "membership from a callback"); break;
        case 10: self->SetDatagramCallback([](Datagram d) { log_ev(EV_RECV, 5, number_of(d)); }); break;
        case 11: on->DeleteSubscriber(self); on->DeleteSubscriber(after); fresh = recorder(on, "/t", 4); publish(extra, 2, 50); break;
        case 12:
        {
          ap = on->CreateActionProvider("/act", [](std::shared_ptr<lp::bus::ActionProvider> a, std::string id, Datagram) { Datagram r; r["n"] = 60; a->Respond(id, r); });
          ac = on->CreateActionConsumer("/act");
          Datagram r; r["n"] = 59;
          ac->RequestAsync(r, [](Datagram d) { log_ev(EV_RECV, 7, (int)d.Get<int>("n")); });
          break;
        }
      }
      log_ev(EV_MARK, 9, 0);
    });
    after = recorder(on, "/t", 3);
    Runner run(root);
    std::thread t1([&] { SubPtr z = recorder(on, "/t", 6); publish(extra, 3, 20); on->DeleteSubscriber(z); });
    publish(p, 1, 1);
    t1.join();
    settle();
    publish(p, 1, 2);
    settle();
    run.stop();
    McQuiet q;
    int mark = find_ev(EV_MARK, 9, 0);
    MC_CHECK(mark >= 0, "reenter", "the callback did not complete");
    bool extraPublished = op == 7 ? count_ev(EV_RECV, 2, 20) > 0 : true;
    auto allOf = [&](int who, bool with50) {
      std::vector<int> w{1, 2};
      if(extraPublished) w.push_back(20);
      if(with50) w.push_back(50);
      expect_received(who, w, "reenter", "after an operation from a callback");
    };
    bool has50 = op == 0 || op == 8 || op == 11;
    if(op != 3) allOf(1, has50);
    if(op != 2 && op != 11) allOf(3, has50);
    if(op == 0 || op == 8 || (op >= 2 && op <= 7) || op == 9 || op == 12) allOf(2, has50);
    if(op == 12) expect_received(7, {60}, "reenter", "a request sent from a callback to an action created there");
    if(op == 1 || op == 11) MC_CHECK(received_list(2).size() == 1, "reenter", "a subscriber that deleted itself received [%s]", received(2).c_str());
    if(op == 2 || op == 11) for(int i = mark; i < LOG.n; i++) MC_CHECK(!(LOG.e[i].kind == EV_RECV && LOG.e[i].who == 3), "reenter", "a subscriber deleted by a callback was called afterwards");
    if(op == 3) for(int i = mark; i < LOG.n; i++) MC_CHECK(!(LOG.e[i].kind == EV_RECV && LOG.e[i].who == 1), "reenter", "a subscriber deleted by a callback was called afterwards");
    if(op == 4 || op == 5 || op == 11)
    {
      MC_CHECK(count_ev(EV_RECV, 4, 2) == 1, "reenter", "a subscriber created by a callback does not receive later messages");
      if(op == 11) MC_CHECK(count_ev(EV_RECV, 4, 50) == 1, "reenter", "a subscriber created by a callback does not receive later messages");
      for(int m : {1, 2, 20, 50}) MC_CHECK(count_ev(EV_RECV, 4, m) <= 1, "reenter", "duplicate delivery to a subscriber created by a callback");
    }
    if(op == 10)
    {
      std::vector<int> g2 = received_list(2), g5 = received_list(5);
      MC_CHECK(g2.size() == 1 && g5.size() == 2, "reenter", "replacing the own callback: old [%s], new [%s]", received(2).c_str(), received(5).c_str());
    }
    outcome_of({2, 3});
  }

  // callbacks on different levels, recursion through several publications
  void reenter_chain()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    PubPtr pa = root->CreatePublisher("/a"), pb = c->CreatePublisher("/b"), pc = root->CreatePublisher("/c");
    SubPtr s1 = c->CreateSubscriber("/a", [&](Datagram d) { log_ev(EV_RECV, 1, number_of(d)); publish(pb, 1, number_of(d) + 10); });
    SubPtr s2 = root->CreateSubscriber("/b", [&](Datagram d) { log_ev(EV_RECV, 2, number_of(d)); publish(pc, 2, number_of(d) + 10); });
    SubPtr s3 = c->CreateSubscriber("/c", [&](Datagram d) { log_ev(EV_RECV, 3, number_of(d)); });
    Runner run(root);
    std::thread t1([&] { publish(pa, 3, 1); });
    publish(pa, 4, 2);
    t1.join();
    settle();
    run.stop();
    expect_received(1, {1, 2}, "reenter", "chain");
    expect_received(2, {11, 12}, "reenter", "chain");
    expect_received(3, {21, 22}, "reenter", "chain");
    McQuiet q;
    for(int i = 0; i < LOG.n; i++) if(LOG.e[i].kind == EV_RECV) MC_CHECK(LOG.e[i].at == 0, "late", "a message published from a callback waited for the next poll (%ld ms)", LOG.e[i].at);
    outcome_of({3});
  }
}

static const mc_scenario S[] = {
  {"stop_race", stop_race, 4, 6, 0, "Stop at every point around Start; restart"},
  {"stop_publish", stop_publish, 2, 3, 0, "3 publications against Stop, then a second run"},
  {"stop_twice", stop_twice, 3, 4, 0, "two threads stop one run"},
  {"stop_callback", stop_callback, 2, 3, 0, "a callback on root/child stops root/child"},
  {"stop_child", stop_child, 1, 2, 0, "Stop of a child with a grandchild and a sibling against publications"},
  {"stop_start_child", stop_start_child, 2, 3, 0, "Stop and Start of a child from two threads"},
  {"stop_cycles", stop_cycles, 2, 3, 0, "4 runs of one bus"},
  {"stop_clock", stop_clock, 1, 2, 0, "the wall clock is set by +-1 h, +-50 ms while the bus runs; two runs"},
  {"stop_race_wakeups", stop_race, 3, 4, MC_SPURIOUS, "stop_race; the bus may wake up without reason"},
  {"stop_publish_wakeups", stop_publish, 1, 2, MC_SPURIOUS, "stop_publish; the bus may wake up without reason"},
  {"stop_cycles_wakeups", stop_cycles, 1, 2, MC_SPURIOUS, "stop_cycles; the bus may wake up without reason"},
  {"stop_sizes", stop_sizes, 0, 0, 0, "trees of up to 129 buses (wide, deep, binary) run 2 and 5 times"},
  {"name_sizes", name_sizes, 0, 0, 0, "up to 101 children under six naming schemes, created, looked up and duplicated"},
  {"detach_sizes", detach_sizes, 0, 0, 0, "subtrees of up to 129 buses (wide, deep, binary) detached"},
  {"destroy_sizes", destroy_sizes, 0, 0, 0, "trees of up to 129 buses destroyed in three orders under publishers still held"},
  {"name_race", name_race, 3, 4, 0, "two creations and a lookup of one name"},
  {"name_lookup", name_lookup, 3, 4, 0, "creations against successful and failing lookups"},
  {"name_sequences", name_sequences, 0, 0, 0, "all sequences of 4 creations/lookups over 3 names and the buses so far"},
  {"detach_race", detach_race, 2, 3, 0, "Detach of a subtree against publications from it"},
  {"detach_stopped", detach_stopped, 0, 1, 0, "a subtree of 4 buses of which any were stopped or detached before is detached"},
  {"detach_create", detach_create, 3, 4, 0, "Detach against the creation of a grandchild"},
  {"destroy_publish", destroy_publish, 3, 4, 0, "root/child/grandchild destroyed while a thread publishes"},
  {"destroy_running", destroy_running, 2, 3, 0, "stop and destruction of the tree while a thread uses a child"},
  {"destroy_releases", destroy_releases, 0, 0, 0, "heap balance of complete lives of a tree"},
  {"destroy_actions", destroy_actions, 0, 0, 0, "heap balance of a bus with action participants"},
  {"reenter", reenter, 1, 2, 0, "13 operations from a callback on root/child while another thread subscribes, publishes, unsubscribes"},
  {"reenter_chain", reenter_chain, 2, 3, 0, "publications from callbacks over three topics and two levels"},
};

int main(int argc, char** argv) { return mc_main(argc, argv, S, sizeof S / sizeof *S); }
