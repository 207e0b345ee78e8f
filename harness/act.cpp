// Actions: request/response correlation, blocking requests, malformed datagrams.
#define HARNESS_MAIN
#include "common.h"
#include <lamppost/bus/ActionConsumer.h>
#include <lamppost/bus/ActionProvider.h>
#include <lamppost/exceptions/ArgumentNullException.h>
#include <lamppost/exceptions/DuplicateKeyException.h>
#include <lamppost/exceptions/KeyNotFoundException.h>

namespace
{
  typedef std::shared_ptr<lp::bus::ActionProvider> ProvPtr;
  typedef std::shared_ptr<lp::bus::ActionConsumer> ConsPtr;

  // The request a handler was given: the payload itself or wrapped together with its id.
  Datagram payload(Datagram d)
  {
    if(d.GetType() == RawDatagramType::Dictionary && d.KeyExists("request")) return d["request"];
    return d;
  }
  void answer(ProvPtr p, std::string id, int n) { p->Respond(id, numbered(n)); }

  // provider that answers n with n + 100
  ProvPtr echo(BusPtr b, const std::string& topic, int who)
  {
    return b->CreateActionProvider(topic, [who](ProvPtr p, std::string id, Datagram r) {
      int n = number_of(payload(r));
      log_ev(EV_RECV, who, n);
      answer(p, id, n + 100);
    });
  }
  void ask(ConsPtr c, int who, int n)
  {
    log_ev(EV_PUB_BEGIN, who, n);
    c->RequestAsync(numbered(n), [who](Datagram r) { log_ev(EV_RECV, who, number_of(r)); });
    log_ev(EV_PUB_END, who, n);
  }

  // two threads ask through one consumer
  void rpc_shared()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    ProvPtr p = echo(c, "/act", 9);
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    std::thread t1([&] { ask(co, 1, 1); });
    ask(co, 2, 2);
    t1.join();
    settle();
    run.stop();
    expect_received(9, {1, 2}, "rpc", "provider");
    expect_received(1, {101}, "rpc", "requester 1");
    expect_received(2, {102}, "rpc", "requester 2");
    outcome_of({9});
  }

  // two consumers of the same action: no crosstalk
  void rpc_consumers()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    ProvPtr p = echo(root, "/act", 9);
    ConsPtr c1 = root->CreateActionConsumer("/act");
    ConsPtr c2 = c->CreateActionConsumer("/act");
    Runner run(root);
    std::thread t1([&] { ask(c1, 1, 1); });
    ask(c2, 2, 2);
    t1.join();
    settle();
    run.stop();
    expect_received(9, {1, 2}, "rpc", "provider");
    expect_received(1, {101}, "rpc", "first consumer");
    expect_received(2, {102}, "rpc", "second consumer");
    outcome_of({9});
  }

  // two actions with neighbouring names
  void rpc_topics()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p1 = echo(root, "/act", 8);
    ProvPtr p2 = echo(root, "/act2", 9);
    ConsPtr c1 = root->CreateActionConsumer("/act");
    ConsPtr c2 = root->CreateActionConsumer("/act2");
    Runner run(root);
    ask(c1, 1, 1);
    ask(c2, 2, 2);
    settle();
    run.stop();
    expect_received(8, {1}, "rpc", "provider of /act");
    expect_received(9, {2}, "rpc", "provider of /act2");
    expect_received(1, {101}, "rpc", "consumer of /act");
    expect_received(2, {102}, "rpc", "consumer of /act2");
  }

  // Equal requests, asked, answered and given up in every order up to a depth: each gets what was answered to it.
  void rpc_history(int depth)
  {
    BusPtr root = std::make_shared<Bus>("root"), c = root->CreateChildBus("c");
    static std::vector<std::string> open, done; static int served;
    open.clear(); done.clear(); served = 0;
    ProvPtr p = c->CreateActionProvider("/act", [](ProvPtr, std::string id, Datagram r) { int n = number_of(payload(r)); McQuiet q; served++; if(n != 7) mc_fail("rpc", "the request reads %d", n); open.push_back(id); });
    ConsPtr co[2] = {root->CreateActionConsumer("/act"), c->CreateActionConsumer("/act")};
    std::vector<int> who; std::vector<std::vector<int>> want(1);     // who[k]: requester of the k-th open request, 0: gave up
    std::vector<int> whodone;
    int asked = 0, value = 100;
    std::string trace;
    Runner run(root);
    for(int step = 0; step < depth; step++)
    {
      int op = mc_choose(7, "op");
      { McQuiet q; static const char* N[] = {"ask 0", "ask 1", "answer the oldest", "answer the newest", "answer a done one again", "give up", "ask twice at once"}; trace += std::string(step ? "; " : "") + N[op]; }
      auto ask_one = [&](int k) { int me = (int)want.size(); want.push_back({}); asked++; who.push_back(me); co[k]->RequestAsync(numbered(7), [me](Datagram r) { log_ev(EV_RECV, me, number_of(r)); }); };
      switch(op)
      {
        case 0: case 1: ask_one(op); break;
        case 6: ask_one(0); settle(1); ask_one(0); break;
        case 2: case 3:
        {
          if(open.empty()) return;
          size_t k = op == 2 ? 0 : open.size() - 1;
          int v = value++;
          p->Respond(open[k], numbered(v));
          if(who[k]) want[who[k]].push_back(v);
          done.push_back(open[k]); open.erase(open.begin() + k); who.erase(who.begin() + k);
          break;
        }
        case 4: if(done.empty()) return; p->Respond(done[0], numbered(value++)); p->Respond(done.back(), numbered(value++)); break;
        case 5: { asked++; long t0 = mc_now_ms(); Datagram r = co[0]->Request(numbered(7), 20); MC_CHECK(r.IsEmpty() && mc_now_ms() - t0 == 20, "rpc", "%s: an answer from nowhere, or after %ld ms", trace.c_str(), mc_now_ms() - t0); who.push_back(0); break; }
      }
      settle(1);
      MC_CHECK(served == asked && open.size() == who.size(), "rpc", "%s: the provider got %d of %d requests", trace.c_str(), served, asked);
      for(size_t i = 1; i < want.size(); i++) { McQuiet q; MC_CHECK(received_list(i) == want[i], "rpc", "%s: request %d got [%s]", trace.c_str(), (int)i, received(i).c_str()); }
    }
    run.stop();
  }
  void rpc_history4() { rpc_history(4); }
  void rpc_history5() { rpc_history(5); }
  void rpc_history6() { rpc_history(6); }

  // actions with similar topics on two levels: each request reaches the provider of its action only
  void rpc_similar()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    static const char* T[] = {"/a", "/a/", "/a//", "//a", "a", "/A", "/a/b", "/b", "/a/request", "/a/response", "/a*", "/*", "/**/*", "", "/", " /a", "/a "};
    const int N = sizeof T / sizeof *T;
    std::vector<ProvPtr> keep;
    std::vector<ConsPtr> co;
    for(int i = 0; i < N; i++) keep.push_back(echo(i % 2 ? c : root, T[i], 40 + i));
    for(int i = 0; i < N; i++) co.push_back((i % 3 ? root : c)->CreateActionConsumer(T[i]));
    Runner run(root);
    for(int i = 0; i < N; i++) ask(co[i], 70 + i, i + 1);
    settle();
    run.stop();
    for(int i = 0; i < N; i++)
    {
      expect_received(40 + i, {i + 1}, "rpc", "provider of one of many similar actions");
      expect_received(70 + i, {i + 101}, "rpc", "consumer of one of many similar actions");
    }
  }

  // responses in every order, doubled, for unknown ids, from a thread of the provider
  void rpc_order()
  {
    BusPtr root = std::make_shared<Bus>("root");
    struct Job { std::string id; int n; };
    std::vector<Job> jobs;
    std::mutex m;
    ProvPtr keep;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) {
      std::lock_guard<std::mutex> l(m);
      McQuiet q;
      jobs.push_back(Job{id, number_of(payload(r))});
      keep = pr;
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    for(int i = 1; i <= 3; i++) ask(co, i, i);
    settle();
    McQuiet* quiet = new McQuiet;
    MC_CHECK(jobs.size() == 3, "rpc", "%d of 3 requests arrived", (int)jobs.size());
    MC_CHECK(jobs[0].id != jobs[1].id && jobs[1].id != jobs[2].id && jobs[0].id != jobs[2].id, "rpc", "two requests have the same invocation id");
    delete quiet;
    int perm = mc_choose(6, "order");
    int noise = mc_choose(4, "noise");
    static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    std::thread t1([&] {
      for(int k = 0; k < 3; k++)
      {
        Job j, prev;
        { McQuiet q; std::lock_guard<std::mutex> l(m); j = jobs[P[perm][k]]; if(k) prev = jobs[P[perm][k - 1]]; }
        if(noise == 1) p->Respond("no such id", numbered(7));
        answer(p, j.id, j.n + 100);
        if(noise == 2) answer(p, j.id, j.n + 200);
        if(noise == 3 && k) answer(p, prev.id, 300);
      }
    });
    ask(co, 4, 4);      // a request while the responses come in
    t1.join();
    settle();
    std::string last;
    { McQuiet q; MC_CHECK(jobs.size() == 4, "rpc", "%d of 4 requests arrived", (int)jobs.size()); last = jobs[3].id; }
    for(int i = 1; i <= 3; i++) expect_received(i, {i + 100}, "rpc", "requester");
    expect_received(4, {}, "rpc", "unanswered requester");
    answer(p, last, 104);
    settle();
    run.stop();
    expect_received(4, {104}, "rpc", "late answer");
  }

  // two providers answer the same request: the first answer counts, once
  void rpc_two_providers()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p1 = root->CreateActionProvider("/act", [](ProvPtr p, std::string id, Datagram r) { answer(p, id, 101); });
    ProvPtr p2 = root->CreateActionProvider("/act", [](ProvPtr p, std::string id, Datagram r) { answer(p, id, 102); });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    ask(co, 1, 1);
    settle();
    run.stop();
    McQuiet q;
    MC_CHECK(received_list(1).size() == 1, "rpc", "the callback ran %d times for one request answered twice", (int)received_list(1).size());
    outcome_of({1});
  }

  // a response callback that asks again; the answer to a nested request comes through
  void rpc_nested()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p = echo(root, "/act", 9);
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    std::thread t1([&] { ask(co, 3, 3); });
    co->RequestAsync(numbered(1), [&](Datagram r) {
      log_ev(EV_RECV, 1, number_of(r));
      ask(co, 2, 2);
    });
    t1.join();
    settle();
    run.stop();
    expect_received(9, {1, 2, 3}, "rpc", "provider");
    expect_received(1, {101}, "rpc", "outer request");
    expect_received(2, {102}, "rpc", "nested request");
    expect_received(3, {103}, "rpc", "concurrent request");
    outcome_of({9});
  }

  // contents survive both ways
  void rpc_content()
  {
    BusPtr root = std::make_shared<Bus>("root");
    Datagram req;
    req["list"].Add(std::make_shared<lp::messages::RawDatagram>(1));
    req["list"].Add(std::make_shared<lp::messages::RawDatagram>(std::string("x")));
    req["deep"]["b"] = true;
    req["invocationId"] = std::string("mine");
    Datagram rsp;
    rsp["d"] = 0.5;
    rsp["invocationId"] = std::string("other");
    rsp["response"]["x"] = 3;
    bool reqOk = false, rspOk = false;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) { reqOk = payload(r) == req; pr->Respond(id, rsp); });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    int kind = mc_choose(4, "response");
    if(kind == 1) rsp = Datagram(7);
    if(kind == 2) rsp = Datagram(std::string("text"));
    if(kind == 3) rsp = Datagram();
    int n = 0;
    co->RequestAsync(req, [&](Datagram r) { n++; rspOk = r == rsp; });
    settle();
    Datagram got = co->Request(req, 100);
    run.stop();
    MC_CHECK(n == 1, "rpc", "%d responses to one request", n);
    MC_CHECK(reqOk, "rpc-content", "the request arrived changed");
    MC_CHECK(rspOk && got == rsp, "rpc-content", "the response arrived changed");
  }

  void rpc_null()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p = echo(root, "/act", 9);
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    bool threw = false;
    try { co->RequestAsync(numbered(1), nullptr); } catch(lp::exceptions::ArgumentNullException&) { threw = true; }
    MC_CHECK(threw, "rpc", "a request without callback was accepted");
    ask(co, 1, 2);
    settle();
    run.stop();
    expect_received(9, {2}, "rpc", "a refused request must not be sent");
    expect_received(1, {102}, "rpc", "request");
  }

  // many requests in flight, answered in reverse
  void rpc_many()
  {
    BusPtr root = std::make_shared<Bus>("root");
    std::vector<std::pair<std::string, int>> jobs;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) { McQuiet q; jobs.push_back({id, number_of(payload(r))}); });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    const int N = mc_choose(2, "number") ? 250 : 40;
    for(int i = 1; i <= N; i++) ask(co, 1000 + i, i);
    settle();
    MC_CHECK((int)jobs.size() == N, "rpc", "%d of %d requests arrived", (int)jobs.size(), N);
    for(int i = N - 1; i >= 0; i--) answer(p, jobs[i].first, jobs[i].second + 1000);
    settle();
    run.stop();
    for(int i = 1; i <= N; i++) expect_received(1000 + i, {i + 1000}, "rpc", "one of many");
  }

  // numbers of consumers, actions, open requests, requests one after another, providers
  void rpc_sizes()
  {
    int kind = mc_choose(5, "kind");
    int n = some_count(kind == 0 || kind == 4 ? 33 : 65);
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    std::vector<ProvPtr> provs;
    std::vector<ConsPtr> cons;
    static int served[600];
    memset(served, 0, sizeof served);
    auto provider = [&](BusPtr b, const std::string& topic, int i) {
      provs.push_back(b->CreateActionProvider(topic, [i](ProvPtr p, std::string id, Datagram r) {
        int k = number_of(payload(r));
        { McQuiet q; served[i]++; }
        answer(p, id, k + 1000);
      }));
    };
    std::vector<std::pair<std::string, int>> jobs;
    std::vector<std::string> ids;
    if(kind == 0) { provider(root, "/act", 0); for(int i = 0; i < n; i++) cons.push_back((i % 2 ? c : root)->CreateActionConsumer("/act")); }
    if(kind == 1) for(int i = 0; i < n; i++) { std::string t = "/act" + std::to_string(i); provider(i % 2 ? c : root, t, i); cons.push_back((i % 3 ? root : c)->CreateActionConsumer(t)); }
    if(kind == 2)
    {
      provs.push_back(c->CreateActionProvider("/act", [&](ProvPtr, std::string id, Datagram r) { McQuiet q; jobs.push_back({id, number_of(payload(r))}); }));
      cons.push_back(root->CreateActionConsumer("/act"));
    }
    if(kind == 3) { provider(c, "/act", 0); cons.push_back(root->CreateActionConsumer("/act")); }
    if(kind == 4) { for(int i = 0; i < n; i++) provider(i % 2 ? c : root, "/act", i); cons.push_back(c->CreateActionConsumer("/act")); }
    Runner run(root);
    switch(kind)
    {
      case 0: case 1: for(int i = 0; i < n; i++) ask(cons[i], i + 1, i + 1); break;
      case 2:
      {
        int order = mc_choose(3, "order");      // as asked, reverse, from the middle
        for(int i = 0; i < n; i++) ask(cons[0], i + 1, i + 1);
        settle();
        MC_CHECK((int)jobs.size() == n, "rpc", "%d of %d requests arrived", (int)jobs.size(), n);
        for(int i = 0; i < n; i++)
        {
          int k = order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n / 2 + (i + 1) / 2 : n / 2 - i / 2);
          if(k < 0 || k >= n) k = (k + n) % n;
          ids.push_back(jobs[k].first);
          answer(provs[0], jobs[k].first, jobs[k].second + 1000);
        }
        break;
      }
      case 3: for(int i = 0; i < n; i++) { ask(cons[0], i + 1, i + 1); settle(); expect_received(i + 1, {i + 1001}, "rpc", "one of many requests one after another"); } break;
      default: for(int i = 0; i < 3; i++) ask(cons[0], i + 1, i + 1); break;
    }
    settle();
    run.stop();
    int asked = kind == 4 ? 3 : n;
    if(kind == 2)
    {
      McQuiet q;
      std::set<std::string> d(ids.begin(), ids.end());
      for(int i = 0; i < n; i++) if(d.count(jobs[i].first)) expect_received(i + 1, {i + 1001}, "rpc", "one of many open requests");
    }
    else if(kind == 4) for(int i = 0; i < asked; i++) { expect_received(i + 1, {i + 1001}, "rpc", "a request answered by many providers"); }
    else for(int i = 0; i < asked; i++) expect_received(i + 1, {i + 1001}, "rpc", "one of many");
    if(kind == 1) for(int i = 0; i < n; i++) MC_CHECK(served[i] == 1, "rpc", "provider %d of %d got %d requests instead of one", i, n, served[i]);
    if(kind == 0 || kind == 3) MC_CHECK(served[0] == n, "rpc", "the provider got %d of %d requests", served[0], n);
    if(kind == 4) for(int i = 0; i < n; i++) MC_CHECK(served[i] == 3, "rpc", "provider %d of %d got %d of 3 requests", i, n, served[i]);
    mc_outcome("ok");
  }

  // ------------------------------------------------------------------ blocking requests
  void req_answered()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p = echo(root, "/act", 9);
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    Datagram r1, r2;
    long t0 = mc_now_ms();
    std::thread t1([&] { r1 = co->Request(numbered(1), 200); });
    r2 = co->Request(numbered(2), 200);
    t1.join();
    long d = mc_now_ms() - t0;
    MC_CHECK(number_of(r1) == 101 && number_of(r2) == 102, "request", "two blocking requests got %d and %d", number_of(r1), number_of(r2));
    MC_CHECK(d == 0, "request-late", "the response was there at once, Request returned after %ld ms", d);
    run.stop();
  }

  // the answer comes late, at the deadline, or never
  void req_timeout()
  {
    BusPtr root = std::make_shared<Bus>("root");
    int delay = mc_choose(4, "delay");     // never, 50 (in time), 100 (at the deadline), 150 (late)
    std::thread helper;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      if(n != 1) { answer(pr, id, n + 100); return; }
      if(delay) helper = std::thread([pr, id, n, delay] { settle(50 * delay); answer(pr, id, n + 100); });
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    long t0 = mc_now_ms();
    Datagram r = co->Request(numbered(1), 100);
    long d = mc_now_ms() - t0;
    bool got = !r.IsEmpty();
    if(got) MC_CHECK(number_of(r) == 101, "request", "a blocking request got %d", number_of(r));
    if(delay == 0 || delay == 3) MC_CHECK(!got && d == 100, "request-timeout", "an unanswered request returned %s after %ld of 100 ms", got ? "a response" : "nothing", d);
    if(delay == 1) MC_CHECK(got && d == 50, "request-timeout", "answered after 50 ms, returned %s after %ld ms", got ? "the response" : "nothing", d);
    if(delay == 2) MC_CHECK(d == 100, "request-timeout", "returned after %ld ms", d);
    // the next request is not confused by a late answer
    Datagram r2 = co->Request(numbered(2), 100);
    MC_CHECK(number_of(r2) == 102, "request", "the request after a timeout got %d", number_of(r2));
    settle();
    Datagram r3 = co->Request(numbered(3), 100);
    MC_CHECK(number_of(r3) == 103, "request", "a later request got %d", number_of(r3));
    run.stop();
    if(helper.joinable()) helper.join();
    mc_outcome(got ? "answered" : "timed out");
  }

  // somebody sets the wall clock while a request waits (or just before): the duration asked for is what counts
  void req_clock()
  {
    BusPtr root = std::make_shared<Bus>("root");
    static const long JUMP[] = {3600000, -3600000, 50, -50, 20, 9};
    long jump = JUMP[mc_choose(6, "jump")];
    long at = mc_choose(3, "when") * 30;         // at once, after 30 or 60 ms
    int delay = mc_choose(3, "delay") * 40;      // never, 40, 80
    std::thread helper;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      if(n != 1) { answer(pr, id, n + 100); return; }
      if(delay) helper = std::thread([pr, id, n, delay] { settle(delay); answer(pr, id, n + 100); });
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    std::thread clock([at, jump] { if(at) settle(at); mc_clock_jump(jump); });
    long t0 = mc_now_ms();
    Datagram r = co->Request(numbered(1), 100);
    long d = mc_now_ms() - t0;
    clock.join();
    if(delay) MC_CHECK(number_of(r) == 101 && d == delay, "request-clock", "answered after %d ms; the wall clock was set by %ld ms at %ld ms: returned %s after %ld ms", delay, jump, at, r.IsEmpty() ? "nothing" : "the response", d);
    else MC_CHECK(r.IsEmpty() && d == 100, "request-clock", "never answered; the wall clock was set by %ld ms at %ld ms: returned %s after %ld of 100 ms", jump, at, r.IsEmpty() ? "nothing" : "a response", d);
    Datagram r2 = co->Request(numbered(2), 100);
    MC_CHECK(number_of(r2) == 102, "request", "the request after the clock was set got %d", number_of(r2));
    run.stop();
    if(helper.joinable()) helper.join();
    mc_outcome(delay ? "answered" : "timed out");
  }

  // the deadline may strike at any moment (slow threads): the response or nothing, and no damage
  void req_slow()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p = echo(root, "/act", 9);
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    {
      char frame[256];
      memset(frame, 1, sizeof frame);
      Datagram r = co->Request(numbered(1), 5);
      bool got = !r.IsEmpty();
      if(got) MC_CHECK(number_of(r) == 101, "request", "a blocking request got %d", number_of(r));
      mc_outcome(got ? "answered" : "timed out");
    }
    settle();
    Datagram r2 = co->Request(numbered(2), 1000);
    if(!r2.IsEmpty()) MC_CHECK(number_of(r2) == 102, "request", "the second request got %d", number_of(r2));
    run.stop();
  }

  // a root bus that does not run
  void req_stopped()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p = echo(root, "/act", 9);
    ConsPtr co = root->CreateActionConsumer("/act");
    long t0 = mc_now_ms();
    std::thread t1([&] { Datagram r = co->Request(numbered(1), 70); MC_CHECK(r.IsEmpty(), "request-timeout", "an answer from nowhere"); });
    Datagram r = co->Request(numbered(2), 30);
    MC_CHECK(r.IsEmpty() && mc_now_ms() - t0 == 30, "request-timeout", "request on a stopped bus");
    t1.join();
    MC_CHECK(mc_now_ms() - t0 == 70, "request-timeout", "request on a stopped bus");
    Runner run(root);       // the queued requests are answered now, nobody waits for them
    settle();
    Datagram r3 = co->Request(numbered(3), 100);
    MC_CHECK(number_of(r3) == 103, "request", "got %d", number_of(r3));
    run.stop();
  }

  // many deadlines, answers at many moments
  void req_sizes()
  {
    static const long T[] = {1, 2, 9, 10, 49, 50, 51, 99, 100, 101, 102, 199, 200, 201, 250, 255, 256, 257, 450, 499, 500, 999, 1000, 1001, 1500, 2000, 5000, 10000, 32767, 32768, 60000, 65535, 65536, 70000};
    long ms = T[pick((int)(sizeof T / sizeof *T))];
    int kind = mc_choose(7, "answer");
    long delay = -1;
    switch(kind)
    {
      case 0: break;                                       // never
      case 1: delay = 0; break;
      case 2: delay = ms / 2; break;
      case 3: delay = ms - 1; break;
      case 4: delay = ms + 1; break;
      case 5: delay = ms + 100; break;
      default: delay = ms > 101 ? 101 : ms - 1; break;
    }
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = mc_choose(2, "provider on") ? root->CreateChildBus("c") : root;
    std::thread helper;
    ProvPtr p = c->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      if(n != 1 || delay == 0) { answer(pr, id, n + 100); return; }
      if(delay > 0) helper = std::thread([pr, id, n, delay] { settle((int)delay); answer(pr, id, n + 100); });
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    long t0 = mc_now_ms();
    Datagram r = co->Request(numbered(1), (int)ms);
    long d = mc_now_ms() - t0;
    bool got = !r.IsEmpty();
    if(delay >= 0 && delay < ms) MC_CHECK(got && number_of(r) == 101 && d == delay, "request-timeout", "deadline %ld ms, answered after %ld ms: %s after %ld ms", ms, delay, got ? "returned" : "gave up", d);
    else MC_CHECK(!got && d == ms, "request-timeout", "deadline %ld ms, %s: %s after %ld ms", ms, delay < 0 ? "never answered" : "answered too late", got ? "returned" : "gave up", d);
    // the following ones are not disturbed
    for(int i = 2; i <= 3; i++)
    {
      t0 = mc_now_ms();
      Datagram r2 = co->Request(numbered(i), 100);
      MC_CHECK(number_of(r2) == 100 + i && mc_now_ms() == t0, "request", "request %d after the first one got %d after %ld ms", i, number_of(r2), mc_now_ms() - t0);
      settle();
    }
    run.stop();
    if(helper.joinable()) helper.join();
    mc_outcome(got ? "answered" : "timed out");
  }

  // extreme deadlines: none, past, and more than any counter of smaller units holds
  void req_extremes()
  {
    static const int T[] = {0, -1, -1000, -2147483647 - 1, 2147484, 2147483, 3000000, 4294967, 4294968, 5000000, 86400000, 1000000000, 2147483646, 2147483647};
    int ms = T[pick((int)(sizeof T / sizeof *T))];
    static const int D[] = {0, 1, 101, 5000};
    int delay = ms > 0 ? D[mc_choose(4, "answer")] : -1;
    BusPtr root = std::make_shared<Bus>("root");
    std::thread helper;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      if(delay < 0 && n == 1) return;
      if(n != 1 || delay == 0) { answer(pr, id, n + 100); return; }
      helper = std::thread([pr, id, n, delay] { settle(delay); answer(pr, id, n + 100); });
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    long t0 = mc_now_ms();
    Datagram r = co->Request(numbered(1), ms);
    long d = mc_now_ms() - t0;
    bool got = !r.IsEmpty();
    if(ms > 0) MC_CHECK(got && number_of(r) == 101 && d == delay, "request-timeout", "deadline %d ms, answered after %d ms: %s after %ld ms", ms, delay, got ? "returned" : "gave up", d);
    else MC_CHECK(!got && d == 0, "request-timeout", "deadline %d ms, never answered: %s after %ld ms", ms, got ? "returned" : "gave up", d);
    Datagram r2 = co->Request(numbered(2), 100);
    MC_CHECK(number_of(r2) == 102, "request", "the request after the first one got %d", number_of(r2));
    run.stop();
    if(helper.joinable()) helper.join();
    mc_outcome(got ? "answered" : "timed out");
  }

  void req_growth()
  {
    BusPtr root = std::make_shared<Bus>("root");
    int kind = mc_choose(3, "kind");
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) { if(kind > 0) answer(pr, id, 5); if(kind > 1) answer(pr, id, 6); });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    auto round = [&] { Datagram r = co->Request(numbered(1), 20); bool seen = false; if(kind) { co->RequestAsync(numbered(2), [&](Datagram) { McQuiet q; seen = true; }); } settle(); McQuiet q; if(kind) MC_CHECK(seen, "request", "no answer"); };
    round();
    round();
    long a = mc_heap_blocks();
    for(int i = 0; i < 8; i++) round();
    long b = mc_heap_blocks();
    // queues keep a block or two in reserve, differing from round to round
    MC_CHECK(b - a <= 3, "request-growth", "8 completed requests (%s) left %ld heap blocks behind", kind ? "answered" : "timed out", b - a);
    run.stop();
  }

  // ------------------------------------------------------------------ malformed
  Datagram malformed(int k)
  {
    Datagram d;
    switch(k)
    {
      case 0: break;                                             // empty
      case 1: d = 5; break;
      case 2: d = std::string("text"); break;
      case 3: d["request"] = numbered(1); break;                 // no id
      case 4: d["invocationId"] = 7; d["request"] = numbered(1); d["response"] = numbered(1); break;
      case 5: d["invocationId"]["x"] = 1; break;
      case 6: d["invocationId"] = std::string("unknown"); break; // nothing else
      case 7: d.Add(std::make_shared<lp::messages::RawDatagram>(1)); break;
      case 8: d["invocationId"] = std::string(""); d["response"] = numbered(1); break;
      case 9: d["invocationId"]; d["response"]; break;           // empty children
      case 10: d["invocationId"] = std::string("unknown"); d["response"] = 3; break;
      case 11: d = RawDatagramType::Dictionary; break;
      default: d = RawDatagramType::List; break;
    }
    return d;
  }
  void bad_datagrams()
  {
    BusPtr root = std::make_shared<Bus>("root");
    ProvPtr p = root->CreateActionProvider("/act", [](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      log_ev(EV_RECV, 9, n);
      if(n > 0) answer(pr, id, n + 100);
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    SubPtr s = recorder(root, "/t", 5);
    PubPtr pq = root->CreatePublisher("/act/request");
    PubPtr pr = root->CreatePublisher("/act/response");
    PubPtr pt = root->CreatePublisher("/t");
    Runner run(root);
    int k = mc_choose(13, "datagram");
    int where = mc_choose(2, "topic");
    std::thread t1([&] { (where ? pr : pq)->Publish(malformed(k)); });
    ask(co, 1, 1);
    t1.join();
    publish(pt, 3, 3);
    settle();
    ask(co, 2, 2);
    Datagram r = co->Request(numbered(3), 100);
    settle();
    MC_CHECK(number_of(r) == 103, "malformed", "the action does not work after a malformed datagram");
    run.stop();
    expect_received(1, {101}, "malformed", "request next to a malformed datagram");
    expect_received(2, {102}, "malformed", "request after a malformed datagram");
    expect_received(5, {3}, "malformed", "other subscribers");
    for(int m = 1; m <= 3; m++) MC_CHECK(count_ev(EV_RECV, 9, m) == 1 || (m == 1 && (k == 3 || k == 4) && !where), "malformed", "request %d reached the handler %d times", m, count_ev(EV_RECV, 9, m));
  }

  // responses are only accepted by who asked: foreign ids on the response topic
  void bad_ids()
  {
    BusPtr root = std::make_shared<Bus>("root");
    std::string id;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string i, Datagram r) { McQuiet q; id = i; });
    ConsPtr co = root->CreateActionConsumer("/act");
    PubPtr pr = root->CreatePublisher("/act/response");
    Runner run(root);
    ask(co, 1, 1);
    settle();
    int k = mc_choose(5, "id");
    McQuiet* quiet = new McQuiet;
    std::string bad = k == 0 ? id + "0" : k == 1 ? id.substr(0, id.size() - 1) : k == 2 ? std::string("") : k == 3 ? std::string("x") + id : id + std::string("\0x", 2);
    std::string good = id;
    delete quiet;
    Datagram d;
    d["invocationId"] = bad;
    d["response"] = numbered(66);
    pr->Publish(d);
    settle();
    expect_received(1, {}, "rpc", "a response with a different id");
    answer(p, good, 101);
    answer(p, bad, 102);
    settle();
    run.stop();
    expect_received(1, {101}, "rpc", "the right response");
  }

  // ------------------------------------------------------------------ resetting a provider
  // what the callback uses is freed as soon as Reset() has returned
  void reset_provider()
  {
    BusPtr root = std::make_shared<Bus>("root");
    struct State { int served; char pad[60]; };
    State* st = new State();
    st->served = 0;
    ProvPtr p = root->CreateActionProvider("/act", [st](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      st->served++;
      log_ev(EV_RECV, 9, n);
      answer(pr, id, n + 100);
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    SubPtr s = recorder(root, "/t", 5);
    PubPtr pt = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { ask(co, 1, 1); });
    if(mc_choose(2, "when")) settle();
    p->Reset();
    int mark = log_ev(EV_MARK, 0, 0);
    delete st;
    ask(co, 2, 2);
    publish(pt, 5, 3);
    t1.join();
    Datagram r = co->Request(numbered(4), 30);
    settle();
    run.stop();
    MC_CHECK(r.IsEmpty(), "reset", "a provider that was reset answered a blocking request");
    for(int i = 1; i <= 4; i++) MC_CHECK(find_ev(EV_RECV, 9, i, mark) < 0, "reset", "the callback got request %d after the provider was reset", i);
    expect_received(2, {}, "reset", "request after the reset");
    expect_received(5, {3}, "reset", "other subscribers of the bus");
    MC_CHECK(count_ev(EV_RECV, 1, 101) == count_ev(EV_RECV, 9, 1), "reset", "the request before the reset");
    outcome_of({9, 1});
  }
  // from its own callback, before, twice; another provider of the action goes on
  void reset_self()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    int kind = mc_choose(3, "kind");    // own callback, other provider's callback, before running
    ProvPtr p, p2;
    ProvPtr* pp = &p;
    p = c->CreateActionProvider("/act", [kind](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      char local[64];
      memset(local, n, sizeof local);
      if(kind == 0) { pr->Reset(); pr->Reset(); }
      log_ev(EV_RECV, 8, n);
      if(local[0] == n && n < 3) answer(pr, id, n + 100);
    });
    p2 = root->CreateActionProvider("/other", [kind, pp](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      log_ev(EV_RECV, 9, n);
      if(kind == 1) (*pp)->Reset();
      answer(pr, id, n + 200);
    });
    ConsPtr co = root->CreateActionConsumer("/act"), co2 = c->CreateActionConsumer("/other");
    if(kind == 2) p->Reset();
    Runner run(root);
    ask(co, 1, 1);
    std::thread t1([&] { ask(co2, 3, 3); });
    t1.join();
    settle();
    ask(co, 2, 2);
    ask(co2, 4, 4);
    settle();
    run.stop();
    MC_CHECK(count_ev(EV_RECV, 8, 2) == 0, "reset", "the callback got a request after the provider was reset");
    if(kind == 0) { expect_received(8, {1}, "reset", "provider"); expect_received(1, {101}, "reset", "the request during which the provider was reset"); }
    if(kind == 2) expect_received(8, {}, "reset", "provider reset before the bus runs");
    expect_received(9, {3, 4}, "reset", "other provider");
    expect_received(3, {203}, "reset", "other requester");
    expect_received(4, {204}, "reset", "other requester");
    outcome_of({8});
  }
  // two threads reset; the provider still sends answers it owes
  void reset_twice()
  {
    BusPtr root = std::make_shared<Bus>("root");
    std::string id;
    std::mutex m;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string i, Datagram r) {
      std::lock_guard<std::mutex> l(m);
      McQuiet q;
      id = i;
    });
    ConsPtr co = root->CreateActionConsumer("/act");
    Runner run(root);
    ask(co, 1, 1);
    settle();
    std::thread t1([&] { p->Reset(); });
    p->Reset();
    t1.join();
    std::string i;
    { McQuiet q; i = id; MC_CHECK(!i.empty(), "reset", "the request did not arrive"); }
    answer(p, i, 101);
    settle();
    run.stop();
    expect_received(1, {101}, "reset", "an answer given after the reset");
  }

  // identifiers created by several threads
  void ids_threads()
  {
    std::string a[2], b[2];
    std::thread t1([&] { for(auto& x : a) x = (std::string)lp::utilities::Uuid::CreateUuid(); });
    for(auto& x : b) x = (std::string)lp::utilities::Uuid::CreateUuid();
    t1.join();
    std::string c = (std::string)lp::utilities::Uuid::CreateUuid();
    McQuiet q;
    std::set<std::string> all{a[0], a[1], b[0], b[1], c};
    MC_CHECK(all.size() == 5, "identifier", "two identifiers created by different threads are the same");
  }
  // requests sent by two threads through three consumers
  void ids_requests()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    std::vector<std::string> ids;
    std::mutex m;
    auto note = [&](ProvPtr, std::string id, Datagram) { std::lock_guard<std::mutex> l(m); McQuiet q; ids.push_back(id); };
    ProvPtr p = root->CreateActionProvider("/act", note), p2 = root->CreateActionProvider("/act2", note);
    ConsPtr a = root->CreateActionConsumer("/act"), b = c->CreateActionConsumer("/act"), d = c->CreateActionConsumer("/act2");
    std::thread t1([&] { a->RequestAsync(numbered(1), [](Datagram) {}); d->RequestAsync(numbered(1), [](Datagram) {}); });
    b->RequestAsync(numbered(1), [](Datagram) {});
    a->RequestAsync(numbered(1), [](Datagram) {});
    t1.join();
    Runner run(root);
    settle();
    run.stop();
    McQuiet q;
    MC_CHECK(ids.size() == 4, "identifier", "%d of 4 requests arrived", (int)ids.size());
    std::set<std::string> all(ids.begin(), ids.end());
    MC_CHECK(all.size() == 4 && !all.count(""), "identifier", "two requests have the same identifier");
  }

  // ------------------------------------------------------------------ refused calls
  // performs the k-th invalid call; what it was refused with: a empty name/null, d duplicate, u unknown, 0 nothing, ? something else
  const int REFUSALS = 17;
  char refused_call(int k, BusPtr root, BusPtr a, BusPtr b, ConsPtr co, std::string& key)
  {
    auto null_fn = std::function<void(Message)>();
    try
    {
      switch(k)
      {
        case 0: Bus(""); break;
        case 1: Bus("", [](Message) {}); break;
        case 2: Bus("x", null_fn); break;
        case 3: root->CreateChildBus(""); break;
        case 4: b->CreateChildBus(""); break;
        case 5: root->CreateChildBus("a"); break;
        case 6: a->CreateChildBus("b"); break;
        case 7: root->GetChildBus("b"); break;
        case 8: root->GetChildBus(""); break;
        case 9: a->GetChildBus("a"); break;
        case 10: b->GetChildBus("root"); break;
        case 11: lp::bus::Publisher("/t", nullptr); break;
        case 12: co->RequestAsync(numbered(50), nullptr); break;
        case 13: co->RequestAsync(Datagram(), nullptr); break;
        case 14: root->DeleteSubscriber(nullptr); break;
        case 15: a->DeletePublisher(nullptr); break;
        case 16: root->CreateChildBus(std::string("a")); break;
      }
    }
    catch(lp::exceptions::ArgumentNullException& e) { key = e.GetParameterName(); return *e.what() ? 'a' : '?'; }
    catch(lp::exceptions::DuplicateKeyException& e) { key = e.GetKey(); return *e.what() ? 'd' : '?'; }
    catch(lp::exceptions::KeyNotFoundException& e) { key = e.GetKey(); return *e.what() ? 'u' : '?'; }
    catch(std::exception& e) { key = e.what(); return '?'; }
    return '0';
  }
  const char* REFUSED_AS = "aaaaadduuuuaaa00d";
  const char* REFUSED_KEY[REFUSALS] = {"name", "name", nullptr, "name", "name", "a", "b", "b", "", "a", "root", nullptr, "callback", "callback", nullptr, nullptr, "a"};
  void check_refused(int k, BusPtr root, BusPtr a, BusPtr b, ConsPtr co)
  {
    std::string key;
    char r = refused_call(k, root, a, b, co, key);
    MC_CHECK(r == REFUSED_AS[k], "refused", "invalid call %d: refused as '%c' (%s) instead of '%c'", k, r, key.c_str(), REFUSED_AS[k]);
    MC_CHECK(!REFUSED_KEY[k] || key == REFUSED_KEY[k], "refused", "invalid call %d: names '%s' instead of '%s'", k, key.c_str(), REFUSED_KEY[k]);
  }
  // where: 0 before the start, 1 on a second thread while messages flow, 2 from a callback, 3 after the stop
  void refused()
  {
    int k = pick(REFUSALS), where = mc_choose(4, "where");
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr a = root->CreateChildBus("a"), b = a->CreateChildBus("b");
    std::vector<SubPtr> subs;
    ConsPtr co = a->CreateActionConsumer("/act");
    bool called = false;
    BusPtr at[3] = {root, a, b};
    for(int i = 0; i < 3; i++)
      subs.push_back(at[i]->CreateSubscriber("/t", [=, &called](Datagram d) {
        log_ev(EV_RECV, i, number_of(d));
        if(where == 2 && i == 1 && !called) { called = true; check_refused(k, root, a, b, co); }
      }));
    int requests = 0;
    ProvPtr late; std::string lateId;
    ProvPtr p = root->CreateActionProvider("/act", [&](ProvPtr pr, std::string id, Datagram r) {
      int n = number_of(payload(r));
      log_ev(EV_RECV, 9, n);
      if(++requests == 1) { late = pr; lateId = id; } else answer(pr, id, n + 100);
    });
    PubPtr pub = b->CreatePublisher("/t");
    if(where == 0) check_refused(k, root, a, b, co);
    {
      Runner run(root);
      ask(co, 4, 1);
      if(where == 1)
      {
        std::thread t([&] { check_refused(k, root, a, b, co); });
        publish(pub, 7, 1); publish(pub, 7, 2);
        t.join();
      }
      else { publish(pub, 7, 1); publish(pub, 7, 2); }
      settle();
      ask(co, 5, 2);
      settle();
      answer(late, lateId, 101);
      settle();
      run.stop();
    }
    if(where == 3) check_refused(k, root, a, b, co);
    // the tree is as it was
    MC_CHECK(root->GetChildBus("a") == a && a->GetChildBus("b") == b, "refused", "after invalid call %d the buses are not found any more", k);
    for(auto& x : subs) MC_CHECK(x->GetTopic() == "/t", "refused", "the topic of a subscriber changed");
    MC_CHECK(pub->GetTopic() == "/t" && p->GetTopic() == "/act" && co->GetTopic() == "/act", "refused", "the topic of a participant changed");
    for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) MC_CHECK(at[i]->ContainsSubscriber(subs[j]) == (i == j) && at[i]->ContainsPublisher(pub) == (i == 2), "refused", "participants of a bus changed");
    BusPtr c = root->CreateChildBus("c");
    subs.push_back(c->CreateSubscriber("/t", [](Datagram d) { log_ev(EV_RECV, 3, number_of(d)); }));
    {
      Runner run(root);
      publish(pub, 7, 3);
      ask(co, 6, 3);
      settle();
      run.stop();
    }
    for(int i = 0; i < 3; i++) expect_received(i, {1, 2, 3}, "refused", "subscriber");
    expect_received(3, {3}, "refused", "subscriber on a new bus");
    expect_received(9, {1, 2, 3}, "refused", "provider");
    expect_received(4, {101}, "refused", "open request");
    expect_received(5, {102}, "refused", "second request");
    expect_received(6, {103}, "refused", "third request");
    late.reset();
    mc_outcome("ok");
  }
  // refused calls leave nothing behind
  void refused_leak()
  {
    int k = pick(REFUSALS);
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr a = root->CreateChildBus("a"), b = a->CreateChildBus("b");
    ConsPtr co = a->CreateActionConsumer("/act");
    for(int i = 0; i < 3; i++) check_refused(k, root, a, b, co);
    long x = mc_heap_blocks();
    for(int i = 0; i < 8; i++) check_refused(k, root, a, b, co);
    long y = mc_heap_blocks();
    MC_CHECK(y == x, "refused-leak", "8 refused calls %d left %ld heap blocks behind", k, y - x);
    mc_outcome("ok");
  }

  // ------------------------------------------------------------------ growth
  // what goes on in a running tree leaves nothing behind, alone and combined with any other activity
  const int ACTIVITIES = 22;
  struct Tree
  {
    BusPtr root = std::make_shared<Bus>("root"), a = root->CreateChildBus("a"), b = a->CreateChildBus("b");
    SubPtr sub[3], all;
    PubPtr pub[3], dead;
    ProvPtr prov; ConsPtr co;
    std::unique_ptr<Runner> run;
    int got = 0, responses = 0, asked = 0, fresh = 1000000;
    std::string next(const char* what) { McQuiet q; return what + std::to_string(fresh++) + " is a name that was never used before"; }
    Tree()
    {
      BusPtr at[3] = {root, a, b};
      for(int i = 0; i < 3; i++)
      {
        sub[i] = at[i]->CreateSubscriber("/t", [this](Datagram) { McQuiet q; got++; });
        pub[i] = at[i]->CreatePublisher("/t");
      }
      all = b->CreateSubscriber("/**/*", [](Datagram) {});
      dead = a->CreatePublisher("/t"); a->DeletePublisher(dead);
      prov = a->CreateActionProvider("/act", [](ProvPtr pr, std::string id, Datagram r) { answer(pr, id, number_of(payload(r)) + 100); });
      co = b->CreateActionConsumer("/act");
      run.reset(new Runner(root));
    }
    void act(int k)
    {
      switch(k)
      {
        case 0: pub[0]->Publish(numbered(1)); break;
        case 1: pub[2]->Publish(numbered(1)); break;
        case 2: b->Publish(Message("x,y", "/t", numbered(2))); break;
        case 3: for(int i = 0; i < 5; i++) pub[1]->Publish(numbered(i)); break;
        case 4: { SubPtr s = a->CreateSubscriber("/t", [](Datagram) {}); pub[0]->Publish(numbered(1)); a->DeleteSubscriber(s); } break;
        case 5: { PubPtr p = b->CreatePublisher("/t"); p->Publish(numbered(1)); b->DeletePublisher(p); } break;
        case 6: sub[1]->SetDatagramCallback([this](Datagram) { McQuiet q; got++; }); break;
        case 7: sub[2]->SetMessageCallback([this](Message) { McQuiet q; got++; }); break;
        case 8: co->RequestAsync(numbered(3), [this](Datagram) { McQuiet q; responses++; }); { McQuiet q; asked++; } break;
        case 9: { Datagram r = co->Request(numbered(4), 1000); MC_CHECK(number_of(r) == 104, "growth", "no answer"); } break;
        case 10: { Datagram d; d["invocationId"] = std::string("nobody's"); d["response"] = 1; root->Publish(Message("", "/act/response", d)); } break;
        case 11: { Datagram d; d["invocationId"] = std::string(); d["request"] = 1; root->Publish(Message("", "/act/request", d)); } break;
        case 12: root->Publish(Message("", "/act/request", Datagram(7))); break;
        case 13: root->GetChildBus("a")->GetChildBus("b"); root->ContainsSubscriber(sub[0]); a->ContainsPublisher(pub[0]); break;
        case 14: try { root->CreateChildBus("a"); } catch(lp::exceptions::Exception&) {} break;
        case 15: a->Stop(); pub[0]->Publish(numbered(1)); settle(); a->Start(); break;
        case 16: dead->Publish(numbered(9)); break;
        case 17: run->stop(); pub[1]->Publish(numbered(5)); run.reset(new Runner(root)); break;
        case 19: a->Publish(Message("a", next("/"), numbered(7))); break;
        case 20: a->Publish(Message(next("s"), "/t", numbered(7))); break;
        case 21: { std::string t = next("/"); SubPtr s = b->CreateSubscriber(t, [](Datagram) {}); PubPtr p = root->CreatePublisher(t); p->Publish(numbered(6)); settle(150); b->DeleteSubscriber(s); root->DeletePublisher(p); } break;
        case 18: { SubPtr s = b->CreateSubscriber("/other"); PubPtr p = root->CreatePublisher("/other"); p->Publish(numbered(6)); settle(150); b->DeleteSubscriber(s); b->DeleteSubscriber(s); root->DeletePublisher(p); root->DeletePublisher(p); } break;
      }
    }
  };
  void growth()
  {
    int k1 = pick(ACTIVITIES), k2 = pick(ACTIVITIES);
    if(k2 < k1) { mc_outcome("ok"); return; }
    Tree* t = new Tree;
    auto round = [&] { t->act(k1); settle(150); if(k2 != k1) { t->act(k2); settle(150); } };
    long x[3], n = k1 == 17 || k2 == 17 ? 3 : 9;
    for(int i = 0; i < (n == 3 ? 2 : 3); i++) round();
    for(int j = 0; j < 3; j++) { x[j] = mc_heap_blocks(); if(j < 2) for(int i = 0; i < n; i++) round(); }
    MC_CHECK(x[1] - x[0] < n || x[2] - x[1] < n, "growth", "activities %d and %d: %ld rounds left %ld heap blocks behind, %ld more %ld", k1, k2, n, x[1] - x[0], n, x[2] - x[1]);
    MC_CHECK(t->responses == t->asked, "growth", "%d of %d requests answered", t->responses, t->asked);
    t->run->stop();
    delete t;
    mc_outcome("ok");
  }
}

static const mc_scenario S[] = {
  {"refused", refused, 1, 2, 0, "17 invalid calls before the start, while messages flow, from a callback and after the stop"},
  {"refused_leak", refused_leak, 1, 1, 0, "17 invalid calls, heap balance"},
  {"growth", growth, 0, 1, 0, "22 activities in a running tree, alone and in pairs, 21 rounds each: heap balance"},
  {"ids_threads", ids_threads, 2, 3, 0, "two threads create identifiers"},
  {"ids_requests", ids_requests, 1, 2, 0, "two threads send requests through three consumers of two actions"},
  {"rpc_shared", rpc_shared, 1, 2, 0, "two threads ask through one consumer; provider on a child bus"},
  {"rpc_consumers", rpc_consumers, 1, 2, 0, "two consumers of one action"},
  {"rpc_topics", rpc_topics, 1, 2, 0, "two actions with neighbouring names"},
  {"rpc_order", rpc_order, 0, 1, 0, "3 requests answered in all orders, with repeated/unknown/stale responses, while a 4th is sent"},
  {"rpc_two_providers", rpc_two_providers, 1, 2, 0, "two providers answer every request"},
  {"rpc_nested", rpc_nested, 1, 2, 0, "a response callback asks again, another thread asks"},
  {"rpc_content", rpc_content, 0, 1, 0, "nested requests and responses that look like envelopes"},
  {"rpc_history", rpc_history5, 0, 0, 0, "all sequences of 5 operations on equal requests of two consumers: asked, answered in any order and again, given up"},
  {"rpc_history_reuse", rpc_history5, 0, 0, MC_REUSE, "the same, freed memory is used again"},
  {"rpc_history6", rpc_history6, 0, 0, MC_REUSE, "the same with 6 operations"},
  {"rpc_sizes_reuse", rpc_sizes, 0, 0, MC_REUSE, "rpc_sizes, freed memory is used again"},
  {"req_timeout_reuse", req_timeout, 1, 2, MC_REUSE, "req_timeout, freed memory and thread identities are used again"},
  {"reset_reuse", reset_twice, 1, 2, MC_REUSE, "reset_twice, freed memory and thread identities are used again"},
  {"growth_reuse", growth, 0, 1, MC_REUSE, "growth, freed memory is used again"},
  {"rpc_null", rpc_null, 1, 2, 0, "request without callback"},
  {"rpc_similar", rpc_similar, 0, 0, 0, "17 actions with similar topics on two buses"},
  {"rpc_many", rpc_many, 0, 0, 0, "40 and 250 requests in flight, answered in reverse"},
  {"rpc_sizes", rpc_sizes, 0, 0, 0, "up to 33 consumers or providers, 65 actions, open requests, requests in a row"},
  {"req_sizes", req_sizes, 0, 0, 0, "34 deadlines up to 70 s, answers never, at once, halfway, 1 ms before/after, later"},
  {"req_extremes", req_extremes, 1, 2, 0, "14 deadlines from below zero to the largest integer x 4 moments of the answer"},
  {"req_answered", req_answered, 1, 2, 0, "two threads block on requests of one consumer"},
  {"req_timeout", req_timeout, 1, 2, 0, "answer never / in time / at the deadline / late, then further requests"},
  {"req_timeout_wakeups", req_timeout, 1, 2, MC_SPURIOUS, "the same; any wait may wake up without reason"},
  {"req_answered_wakeups", req_answered, 1, 2, MC_SPURIOUS, "req_answered; any wait may wake up without reason"},
  {"req_stopped_wakeups", req_stopped, 1, 2, MC_SPURIOUS, "req_stopped; any wait may wake up without reason"},
  {"req_clock", req_clock, 1, 2, 0, "the wall clock is set by +-1 h, +-50, 20, 9 ms at three moments around a request answered never, after 40 or 80 ms"},
  {"req_slow", req_slow, 2, 3, MC_EAGER_TIMEOUTS, "the deadline may strike at any point of the exchange"},
  {"req_stopped", req_stopped, 1, 2, 0, "two requests on a bus that does not run yet"},
  {"req_growth", req_growth, 0, 0, 0, "heap balance over completed and timed out requests"},
  {"reset_provider", reset_provider, 2, 3, 0, "a provider is reset and its state freed while requests come in"},
  {"reset_self", reset_self, 1, 2, 0, "a provider is reset by its own callback, another one's, or before the bus runs"},
  {"reset_twice", reset_twice, 2, 3, 0, "two threads reset a provider that still owes an answer"},
  {"bad_datagrams", bad_datagrams, 0, 1, 0, "13 malformed datagrams on both action topics next to good requests"},
  {"bad_ids", bad_ids, 0, 1, 0, "responses with ids similar to an open request"},
};

int main(int argc, char** argv) { return mc_main(argc, argv, S, sizeof S / sizeof *S); }
