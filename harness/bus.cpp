// Message delivery, ordering, isolation, subscription lifetime: real Bus/Publisher/Subscriber
// under the controlled scheduler.
#define HARNESS_MAIN
#include "common.h"

namespace
{
  // ------------------------------------------------------------------ delivery
  void deliver_tree()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr a = root->CreateChildBus("a");
    BusPtr b = a->CreateChildBus("b");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(a, "/t", 2);
    SubPtr s3 = recorder(b, "/t", 3);
    SubPtr s4 = recorder(a, "/**/*", 4);
    SubPtr s5 = recorder(b, "/other", 5);
    PubPtr p1 = root->CreatePublisher("/t");
    PubPtr p2 = b->CreatePublisher("/t");
    PubPtr p3 = a->CreatePublisher("/other");
    Runner run(root);
    std::thread t1([&] { publish(p1, 1, 1); publish(p3, 1, 3); });
    publish(p2, 2, 2);
    t1.join();
    settle();
    run.stop();
    expect_received(1, {1, 2}, "delivery", "root subscriber of /t");
    expect_received(2, {1, 2}, "delivery", "child subscriber of /t");
    expect_received(3, {1, 2}, "delivery", "grandchild subscriber of /t");
    expect_received(4, {1, 2, 3}, "delivery", "wildcard subscriber");
    expect_received(5, {3}, "delivery", "grandchild subscriber of /other");
    outcome_of({1, 4});
  }

  // several subscribers of one topic on one bus, two subscriptions of the same topic and callback
  void deliver_fanout()
  {
    BusPtr root = std::make_shared<Bus>("root");
    std::vector<SubPtr> subs;
    for(int i = 1; i <= 5; i++) subs.push_back(recorder(root, "/t", i));
    PubPtr p = root->CreatePublisher("/t");
    PubPtr p2 = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p, 1, 1); publish(p, 1, 2); });
    publish(p2, 2, 3);
    t1.join();
    settle();
    run.stop();
    for(int i = 1; i <= 5; i++) expect_received(i, {1, 2, 3}, "delivery", "fan-out");
    outcome_of({1});
  }

  // a subscriber created while messages flow: no duplicate, no gap, everything published afterwards
  void deliver_late_subscriber()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s1 = recorder(root, "/t", 1);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { for(int i = 1; i <= 3; i++) publish(p, 1, i); });
    SubPtr s2 = recorder(root, "/t", 2);
    log_ev(EV_MARK, 2, 0);
    t1.join();
    settle();
    run.stop();
    expect_received(1, {1, 2, 3}, "delivery", "subscriber present from the start");
    McQuiet q;
    std::vector<int> got = received_list(2);
    for(size_t i = 0; i < got.size(); i++)
      MC_CHECK(got[i] == 3 - (int)(got.size() - 1 - i), "delivery-late", "a late subscriber saw a gap or a duplicate: [%s]", received(2).c_str());
    int mark = find_ev(EV_MARK, 2, 0);
    for(int m = 1; m <= 3; m++)
      if(find_ev(EV_PUB_BEGIN, 1, m) > mark)
        MC_CHECK(count_ev(EV_RECV, 2, m) == 1, "delivery-late", "message %d was published after the subscription existed but was not delivered", m);
    outcome_of({2});
  }

  // a child bus created while messages flow
  void deliver_late_child()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr x = root->CreateChildBus("x");
    SubPtr s1 = recorder(x, "/t", 1);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { for(int i = 1; i <= 2; i++) publish(p, 1, i); });
    BusPtr y = root->CreateChildBus("y");
    SubPtr s2 = recorder(y, "/t", 2);
    log_ev(EV_MARK, 2, 0);
    PubPtr p2 = y->CreatePublisher("/t");
    publish(p2, 2, 3);
    t1.join();
    settle();
    run.stop();
    expect_received(1, {1, 2, 3}, "delivery", "old child");
    McQuiet q;
    int mark = find_ev(EV_MARK, 2, 0);
    for(int m = 1; m <= 3; m++)
    {
      int c = count_ev(EV_RECV, 2, m);
      MC_CHECK(c <= 1, "delivery-late", "message %d delivered %d times to the new child", m, c);
      int pb = find_ev(EV_PUB_BEGIN, m == 3 ? 2 : 1, m);
      if(pb > mark) MC_CHECK(c == 1, "delivery-late", "message %d published after the child subscription existed was lost", m);
    }
    outcome_of({1, 2});
  }

  // removing one subscriber must not disturb the others
  void deliver_neighbours()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(root, "/t", 2);
    SubPtr s3 = recorder(root, "/t", 3);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p, 1, 1); publish(p, 1, 2); });
    root->DeleteSubscriber(s2);
    t1.join();
    settle();
    run.stop();
    expect_received(1, {1, 2}, "delivery", "subscriber before the deleted one");
    expect_received(3, {1, 2}, "delivery", "subscriber behind the deleted one");
    McQuiet q;
    std::vector<int> got = received_list(2);
    for(size_t i = 0; i < got.size(); i++) MC_CHECK(got[i] == (int)i + 1, "delivery-neighbours", "the deleted subscriber saw [%s]", received(2).c_str());
    outcome_of({1, 2, 3});
  }

  // messages published before the bus runs are delivered once it does
  void deliver_before_start()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(c, "/t", 2);
    PubPtr p = root->CreatePublisher("/t");
    PubPtr pc = c->CreatePublisher("/t");
    publish(p, 1, 1);
    publish(pc, 2, 2);
    Runner run(root);
    publish(p, 1, 3);
    settle();
    run.stop();
    expect_received(1, {1, 2, 3}, "delivery", "published before start");
    expect_received(2, {1, 2, 3}, "delivery", "published before start (child)");
    outcome_of({1, 2});
  }

  void burst(int n, int subs)
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    std::vector<SubPtr> s;
    for(int i = 1; i <= subs; i++)
    {
      BusPtr b = i % 2 ? root : c;
      s.push_back(b->CreateSubscriber("/t", [i](Datagram d) { McQuiet q; log_ev(EV_RECV, i, d.Get<int>()); }));
    }
    PubPtr p = root->CreatePublisher("/t");
    for(int i = 1; i <= n / 2; i++) p->Publish(Datagram(i));
    Runner run(root);
    for(int i = n / 2 + 1; i <= n; i++) p->Publish(Datagram(i));
    settle();
    run.stop();
    McQuiet q;
    for(int k = 1; k <= subs; k++)
    {
      std::vector<int> got = received_list(k);
      bool ok = (int)got.size() == n;
      for(int i = 0; ok && i < n; i++) ok = got[i] == i + 1;
      MC_CHECK(ok, "delivery-burst", "a burst of %d messages arrived as %d messages [%.300s]", n, (int)got.size(), received(k).c_str());
    }
  }
  void deliver_burst_small() { burst(12, 2); }
  void deliver_burst_large() { burst(1200, 2); }
  // ------------------------------------------------------------------ sizes: n participants, buses, topics, messages
  // mode 0: everything arrives; 1: after some subscribers were deleted; 2: after some publishers were deleted
  void sizes_with(int mode)
  {
    int shape = mc_choose(mode == 0 ? 7 : 4, "shape"), n = some_count(shape == 4 ? 100 : shape == 2 ? 129 : mode || shape < 3 ? 257 : 513), gone = mode ? mc_choose(4, "deleted") : 0;
    BusPtr root = std::make_shared<Bus>("root");
    std::vector<BusPtr> bus{root};
    std::vector<SubPtr> subs;
    std::vector<PubPtr> pubs;
    std::vector<std::vector<int>> want;           // by subscriber
    auto quiet = [&](std::function<void()> f) { McQuiet q; f(); };
    auto name = [](const char* a, int i) { McQuiet q; return a + std::to_string(i); };
    auto topic = [&](int i) { McQuiet q; return shape == 4 ? "/t/" + std::to_string(i) : shape == 5 ? "/" + std::string(n - 1, 't') + std::to_string(i) : std::string("/t"); };
    int ns = shape == 3 ? 1 : shape == 5 || shape == 6 ? 2 : n, np = shape == 3 || shape == 4 ? n : shape == 5 ? 2 : 1;
    for(int i = 0; i < n && (shape == 1 || shape == 2); i++) { BusPtr b = (shape == 1 ? root : bus.back())->CreateChildBus(name("c", i)); quiet([&] { bus.push_back(b); }); }
    BusPtr feed = shape == 2 ? bus.back() : root;
    for(int i = 0; i < ns; i++)
    {
      BusPtr on = shape == 1 || shape == 2 ? bus[i + 1] : root;
      SubPtr s;
      int N = n;
      if(shape == 6 && i == 0) s = root->CreateSubscriber("/start", [root, N](Datagram) { for(int k = 1; k <= N; k++) root->Publish(Message("root", "/t", numbered(k))); });
      else s = recorder(on, topic(i), i + 1);
      quiet([&] { subs.push_back(s); want.emplace_back(); });
    }
    if(shape == 6) { PubPtr p = root->CreatePublisher("/start"); quiet([&] { pubs.push_back(p); }); }
    else for(int i = 0; i < np; i++) { PubPtr p = feed->CreatePublisher(topic(i)); quiet([&] { pubs.push_back(p); }); }
    std::vector<char> sGone(ns, 0), pGone(np, 0);
    int number = 0;
    auto round = [&] {
      for(int i = 0; i < np; i++)
      {
        int m = ++number;
        publish(pubs[i], i + 1, m);
        quiet([&] {
          if(pGone[i]) return;
          for(int j = 0; j < ns; j++)
            if(!sGone[j] && shape != 6 && (shape != 4 && shape != 5 ? true : i == j)) want[j].push_back(m);
          if(shape == 6) for(int k = 1; k <= n; k++) want[1].push_back(k);
        });
      }
    };
    Runner run(root);
    round();
    settle();
    if(mode)
    {
      int total = mode == 1 ? ns : np;
      for(int i = 0; i < total; i++)
      {
        bool out = gone == 0 ? i % 2 == 0 : gone == 1 ? i == total - 1 : gone == 2 ? i == 0 : i > 0;
        if(!out) continue;
        if(mode == 1) { bus[shape == 1 || shape == 2 ? i + 1 : 0]->DeleteSubscriber(subs[i]); sGone[i] = 1; }
        else { feed->DeletePublisher(pubs[i]); pGone[i] = 1; }
      }
      McQuiet q;
      for(int i = 0; i < total; i++)
      {
        bool has = mode == 1 ? bus[shape == 1 || shape == 2 ? i + 1 : 0]->ContainsSubscriber(subs[i]) : feed->ContainsPublisher(pubs[i]);
        MC_CHECK(has == !(mode == 1 ? sGone[i] : pGone[i]), mode == 1 ? "unsubscribe" : "publisher-deleted", "participant %d of %d (shape %d) is %s", i, total, shape, has ? "still there" : "gone");
      }
    }
    round();
    settle();
    run.stop();
    McQuiet q;
    std::vector<std::vector<int>> got(ns);
    for(int i = 0; i < LOG.n; i++) if(LOG.e[i].kind == EV_RECV) got[LOG.e[i].who - 1].push_back(LOG.e[i].msg);
    for(int j = 0; j < ns; j++)
      MC_CHECK(got[j] == want[j], mode == 0 ? "delivery-sizes" : mode == 1 ? "unsubscribe" : "publisher-deleted", "shape %d, size %d: subscriber %d of %d received %zu messages (last %d) instead of %zu (last %d)", shape, n, j, ns, got[j].size(), got[j].empty() ? 0 : got[j].back(), want[j].size(), want[j].empty() ? 0 : want[j].back());
    mc_outcome(std::to_string(shape).c_str());
  }
  void deliver_sizes() { sizes_with(0); }
  void unsub_sizes() { sizes_with(1); }
  void delpub_sizes() { sizes_with(2); }

  void deliver_wide()
  {
    // many participants: 40 subscribers over 8 children and 3 levels
    BusPtr root = std::make_shared<Bus>("root");
    std::vector<BusPtr> buses{root};
    std::vector<SubPtr> s;
    int id = 0;
    for(int i = 0; i < 8; i++)
    {
      BusPtr c = root->CreateChildBus("c" + std::to_string(i));
      BusPtr d = c->CreateChildBus("d");
      BusPtr e = d->CreateChildBus("e");
      for(BusPtr x : {c, d, e}) { s.push_back(recorder(x, "/t", ++id)); s.push_back(recorder(x, "/u", ++id)); buses.push_back(x); }
    }
    Runner run(root);
    std::vector<PubPtr> pubs;
    for(size_t i = 0; i < buses.size(); i++) { pubs.push_back(buses[i]->CreatePublisher("/t")); pubs.back()->Publish(numbered((int)i)); }
    settle();
    run.stop();
    std::vector<int> all;
    for(size_t i = 0; i < buses.size(); i++) all.push_back((int)i);
    for(int i = 1; i <= id; i++) expect_received(i, i % 2 ? all : std::vector<int>(), "delivery-wide", "wide tree");
  }

  // every pair of a subscriber's and a publisher's topic
  void deliver_topics()
  {
    static const char* T[] = {"/t", "/t/", "/T", "t", "/t2", "/tt", "/", "", "/*", "/**", "/t/*", "/**/*", "/**/t", "/t/u", "/a/t", " /t", "/t\n", "*"};
    const int N = sizeof T / sizeof *T;
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    int pub = mc_choose(3, "published topic") * 6; pub += mc_choose(6, "published topic");
    std::vector<SubPtr> subs;
    for(int i = 0; i < N; i++) { subs.push_back(recorder(root, T[i], i)); subs.push_back(recorder(c, T[i], 100 + i)); }
    PubPtr p = (mc_choose(2, "bus") ? c : root)->CreatePublisher(T[pub]);
    Runner run(root);
    publish(p, 1000, 1);
    settle();
    run.stop();
    McQuiet q;
    for(int i = 0; i < N; i++)
    {
      bool want = i == pub || strcmp(T[i], "/**/*") == 0;
      for(int b : {0, 100})
        MC_CHECK(count_ev(EV_RECV, b + i, 1) == (want ? 1 : 0), "topic", "a subscriber of \"%s\" received %d messages with the topic \"%s\"", T[i], count_ev(EV_RECV, b + i, 1), T[pub]);
    }
  }

  // every operation sequence up to a depth against a reference model of the bus tree
  void sequences(int depth)
  {
    struct MSub { int id; int bus; std::string topic; bool live; std::vector<int> want; };
    BusPtr root = std::make_shared<Bus>("root");
    std::vector<BusPtr> bus{root};
    std::vector<bool> up{true};
    std::vector<int> parent{-1};
    std::vector<MSub> model;
    std::vector<SubPtr> subs;
    const char* topics[] = {"/t", "/t2", "/**/*"};
    Runner run(root);
    int msg = 0;
    for(int step = 0; step < depth; step++)
    {
      int op = mc_choose(6, "op");
      if(op == 0 || op == 1)   // subscribe: topic, bus
      {
        int t = op == 0 ? 0 : 1 + mc_choose(2, "topic");
        int b = mc_choose((int)bus.size(), "bus");
        int id = (int)model.size() + 1;
        subs.push_back(recorder(bus[b], topics[t], id));
        model.push_back(MSub{id, b, topics[t], true, {}});
      }
      else if(op == 2)         // unsubscribe
      {
        if(model.empty()) return;
        int k = mc_choose((int)model.size(), "victim");
        bus[model[k].bus]->DeleteSubscriber(subs[k]);
        model[k].live = false;
      }
      else if(op == 3)         // publish
      {
        int t = mc_choose(2, "topic");
        int b = mc_choose((int)bus.size(), "bus");
        ++msg;
        PubPtr p = bus[b]->CreatePublisher(topics[t]);
        p->Publish(numbered(msg));
        settle(1);
        for(MSub& s : model)
        {
          bool reach = s.live && (s.topic == topics[t] || s.topic == "/**/*");
          for(int x = s.bus; x > 0; x = parent[x]) if(!up[x]) reach = false;
          if(reach) s.want.push_back(msg);
        }
      }
      else if(op == 4)         // new child
      {
        if(bus.size() >= 3) return;
        int b = mc_choose((int)bus.size(), "bus");
        bus.push_back(bus[b]->CreateChildBus("child"+ std::to_string(bus.size())));
        up.push_back(true); parent.push_back(b);
      }
      else                     // stop / start a child
      {
        if(bus.size() < 2) return;
        int b = 1 + mc_choose((int)bus.size() - 1, "bus");
        if(up[b]) bus[b]->Stop(); else bus[b]->Start();
        up[b] = !up[b];
      }
      for(MSub& s : model)
      {
        McQuiet q;
        std::vector<int> got = received_list(s.id);
        MC_CHECK(got == s.want, "delivery-sequence", "after step %d subscriber %d (bus %d, topic %s) has received [%s], the reference model says %d message(s)",
                 step, s.id, s.bus, s.topic.c_str(), received(s.id).c_str(), (int)s.want.size());
      }
    }
    run.stop();
    for(MSub& s : model)
    {
      bool contained = bus[s.bus]->ContainsSubscriber(subs[s.id - 1]);
      MC_CHECK(contained == s.live, "membership", "ContainsSubscriber(%d) is %d, expected %d", s.id, contained, s.live);
    }
  }
  // Equal messages and participants that come and go (their memory may be used again): every operation sequence up to a
  // depth, counted against a reference model.
  void churn(int depth)
  {
    struct Sub { int id; bool child; };
    BusPtr root = std::make_shared<Bus>("root"), child = root->CreateChildBus("child");
    SubPtr keep = recorder(root, "/t", 1);
    SubPtr sub[2]; Sub ms[2]; PubPtr pub[2];
    pub[0] = root->CreatePublisher("/t");
    int want[40] = {0}, next = 2;
    std::string trace;
    auto all = [&](int by) { want[1] += by; for(int i = 0; i < 2; i++) if(sub[i]) want[ms[i].id] += by; };
    Runner run(root);
    for(int step = 0; step < depth; step++)
    {
      int op = mc_choose(6, "op"), k = op < 5 ? mc_choose(2, "slot") : 0;
      { McQuiet q; static const char* N[] = {"subscribe", "unsubscribe", "create publisher", "delete publisher", "publish", "publish on the child"}; trace += std::string(step ? "; " : "") + N[op] + (op < 5 ? std::to_string(k) : ""); }
      if(op < 2) settle(1);     // who receives what is under way is another question
      switch(op)
      {
        case 0: if(sub[k]) return; ms[k].id = next++; ms[k].child = k == 1; sub[k] = recorder(k == 1 ? child : root, k == 1 ? "/**/*" : "/t", ms[k].id); break;
        case 1: if(!sub[k]) return; (ms[k].child ? child : root)->DeleteSubscriber(sub[k]); sub[k] = nullptr; break;
        case 2: if(pub[k]) return; pub[k] = root->CreatePublisher("/t"); break;
        case 3: if(!pub[k]) return; root->DeletePublisher(pub[k]); { PubPtr dead = pub[k]; pub[k] = nullptr; dead->Publish(numbered(7)); } break;
        case 4: if(!pub[k]) return; pub[k]->Publish(numbered(7)); pub[k]->Publish(numbered(7)); all(2); break;
        case 5: { PubPtr p = child->CreatePublisher("/t"); p->Publish(numbered(7)); child->DeletePublisher(p); all(1); } break;
      }
    }
    settle(1);
    for(int i = 1; i < next; i++) MC_CHECK(count_ev(EV_RECV, i, 7) == want[i], "delivery-sequence", "%s: subscriber %d has received %d equal messages instead of %d", trace.c_str(), i, count_ev(EV_RECV, i, 7), want[i]);
    run.stop();
  }
  void churn5() { churn(5); }
  void churn6() { churn(6); }
  void churn7() { churn(7); }
  // equal messages from two threads
  void equal_messages()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(root, "/t", 1), s2 = recorder(c, "/**/*", 2);
    PubPtr p1 = root->CreatePublisher("/t"), p2 = c->CreatePublisher("/t");
    Runner run(root);
    std::thread t([&] { p1->Publish(numbered(7)); p1->Publish(numbered(7)); });
    p1->Publish(numbered(7)); p2->Publish(numbered(7));
    t.join();
    settle();
    run.stop();
    for(int i : {1, 2}) MC_CHECK(count_ev(EV_RECV, i, 7) == 4, "delivery", "subscriber %d received %d of 4 equal messages", i, count_ev(EV_RECV, i, 7));
  }
  void sequences4() { sequences(4); }
  void sequences5() { sequences(5); }
  void sequences6() { sequences(6); }

  // ------------------------------------------------------------------ order
  // total order of deliveries respects the real-time order of Publish calls and is the same everywhere
  void check_order(std::initializer_list<int> subs)
  {
    McQuiet q;
    std::vector<int> first;
    bool have = false;
    for(int s : subs)
    {
      std::vector<int> got = received_list(s);
      for(size_t i = 0; i < got.size(); i++)
        for(size_t j = i + 1; j < got.size(); j++)
        {
          int bi = -1, ej = -1;
          for(int k = 0; k < LOG.n; k++)
          {
            if(LOG.e[k].kind == EV_PUB_BEGIN && LOG.e[k].msg == got[i]) bi = k;
            if(LOG.e[k].kind == EV_PUB_END && LOG.e[k].msg == got[j]) ej = k;
          }
          MC_CHECK(!(ej >= 0 && bi >= 0 && ej < bi), "order", "subscriber %d received message %d before message %d, whose Publish call had returned before the other began",
                   s, got[i], got[j]);
        }
      if(have) MC_CHECK(got == first, "order-agreement", "two subscribers saw different orders: [%s] and [%s]", received(*subs.begin()).c_str(), received(s).c_str());
      first = got; have = true;
      // time passes only when nothing can run: whatever the interleaving, delivery takes none
      for(int i = 0; i < LOG.n; i++)
        if(LOG.e[i].kind == EV_RECV && LOG.e[i].who == s)
          for(int k = 0; k < LOG.n; k++)
            if(LOG.e[k].kind == EV_PUB_BEGIN && LOG.e[k].msg == LOG.e[i].msg)
              MC_CHECK(LOG.e[i].at <= LOG.e[k].at, "late", "message %d was published at %ld ms but delivered only at %ld ms although the bus had nothing else to do", LOG.e[i].msg, LOG.e[k].at, LOG.e[i].at);
    }
  }

  void order_two_publishers()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(c, "/t", 2);
    PubPtr p1 = root->CreatePublisher("/t");
    PubPtr p2 = c->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p1, 1, 1); publish(p1, 1, 2); });
    publish(p2, 2, 11);
    publish(p2, 2, 12);
    t1.join();
    settle();
    run.stop();
    expect_received(1, {1, 2, 11, 12}, "delivery", "order scenario");
    check_order({1, 2});
    outcome_of({1});
  }

  void order_shared_publisher()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(root, "/**/*", 2);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p, 1, 1); publish(p, 1, 2); });
    publish(p, 2, 3);
    t1.join();
    settle();
    run.stop();
    expect_received(1, {1, 2, 3}, "delivery", "order scenario");
    check_order({1, 2});
    outcome_of({1});
  }

  // a callback that publishes (a relay): its message is ordered behind everything published before
  void order_relay()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    PubPtr relay = c->CreatePublisher("/out");
    SubPtr in = c->CreateSubscriber("/t", [&](Datagram d) { publish(relay, 3, 100 + number_of(d)); });
    SubPtr s1 = recorder(root, "/**/*", 1);
    SubPtr s2 = recorder(c, "/**/*", 2);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    publish(p, 1, 1);
    publish(p, 1, 2);
    settle();
    run.stop();
    expect_received(1, {1, 2, 101, 102}, "delivery", "relay scenario");
    check_order({1, 2});
    outcome_of({1});
  }

  // a running, idle bus delivers at once: no message waits for the next poll of the queue
  void order_prompt()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s1 = recorder(root, "/t", 1);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    publish(p, 1, 1);
    std::this_thread::sleep_for(std::chrono::milliseconds(30));
    publish(p, 1, 2);
    std::this_thread::sleep_for(std::chrono::milliseconds(70));
    publish(p, 1, 3);
    settle();
    run.stop();
    McQuiet q;
    expect_received(1, {1, 2, 3}, "delivery", "prompt scenario");
    for(int m = 1; m <= 3; m++)
    {
      long sent = LOG.e[find_ev(EV_PUB_END, 1, m)].at, got = LOG.e[find_ev(EV_RECV, 1, m)].at;
      MC_CHECK(got <= sent, "late", "message %d was published at %ld ms but delivered only at %ld ms although the bus was idle", m, sent, got);
    }
  }

  // the wall clock is set while the bus has nothing to do
  void order_clock()
  {
    static const long JUMP[] = {3600000, -3600000, 50, -50};
    long jump = JUMP[mc_choose(4, "jump")];
    int twice = mc_choose(2, "and back");
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(c, "/t", 2);
    PubPtr p = c->CreatePublisher("/t");
    Runner run(root);
    std::thread clock([=] { std::this_thread::sleep_for(std::chrono::milliseconds(40)); mc_clock_jump(jump); if(twice) { std::this_thread::sleep_for(std::chrono::milliseconds(40)); mc_clock_jump(-jump); } });
    publish(p, 1, 1);
    std::this_thread::sleep_for(std::chrono::milliseconds(60));
    publish(p, 1, 2);
    std::this_thread::sleep_for(std::chrono::milliseconds(70));
    publish(p, 1, 3);
    settle();
    clock.join();
    run.stop();
    McQuiet q;
    expect_received(1, {1, 2, 3}, "delivery", "while the wall clock is set");
    expect_received(2, {1, 2, 3}, "delivery", "while the wall clock is set");
    for(int m = 1; m <= 3; m++)
    {
      long sent = LOG.e[find_ev(EV_PUB_END, 1, m)].at, got = LOG.e[find_ev(EV_RECV, 1, m)].at;
      MC_CHECK(got <= sent, "late", "message %d was published at %ld ms but delivered only at %ld ms although the bus was idle (wall clock set by %ld ms)", m, sent, got, jump);
    }
  }

  // publications that meet a bus which just finishes a turn, also from child buses
  void order_prompt_pair()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(root, "/t", 1);
    PubPtr p = root->CreatePublisher("/t"), p2 = c->CreatePublisher("/t");
    Runner run(root);
    publish(p, 1, 1);
    publish(p2, 1, 2);
    settle();
    run.stop();
    expect_received(1, {1, 2}, "delivery", "prompt scenario");
    check_order({1});
  }

  void order_long()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(c, "/t", 2);
    PubPtr p1 = root->CreatePublisher("/t");
    PubPtr p2 = c->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { for(int i = 0; i < 25; i++) publish(p1, 1, i); });
    for(int i = 100; i < 125; i++) publish(p2, 2, i);
    t1.join();
    settle();
    run.stop();
    check_order({1, 2});
    McQuiet q;
    MC_CHECK(received_list(1).size() == 50, "delivery", "%d of 50 messages delivered", (int)received_list(1).size());
  }

  // ------------------------------------------------------------------ isolation
  Datagram rich()
  {
    Datagram d;
    d["i"] = 7;
    d["s"] = std::string("payload");
    d["deep"]["er"]["x"] = 2.5;
    Datagram l;
    l.Add(std::make_shared<lp::messages::RawDatagram>(1));
    l.Add(std::make_shared<lp::messages::RawDatagram>(std::string("two")));
    d["list"] = l;
    d["flag"] = true;
    d["empty"];
    return d;
  }
  void damage(Datagram& d)
  {
    d["i"] = 8;
    d["s"] = std::string("changed");
    d["deep"]["er"]["x"] = std::string("changed");
    d["deep"]["new"] = 1;
    Datagram(d["list"]).Add(std::make_shared<lp::messages::RawDatagram>(3));
    d["list"][0] = 99;
    d["flag"] = false;
  }

  void isolation()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("kid");
    int seen = 0, bad = 0;
    auto check = [&](Message m) {
      log_ev(EV_RECV, 1, 1);
      Datagram d = m.GetDatagram();
      Datagram want = rich();
      if(!(d == want)) bad++;
      if(m.GetTopic() != "/t") bad += 100;
      if(m.GetSender() != "kid") bad += 10000;
      seen++;
      damage(d);
    };
    SubPtr s1 = root->CreateSubscriber("/t");
    s1->SetMessageCallback(check);
    SubPtr s2 = root->CreateSubscriber("/**/*");
    s2->SetMessageCallback(check);
    SubPtr s3 = c->CreateSubscriber("/t", [&](Datagram d) { if(!(d == rich())) bad++; seen++; damage(d); });
    SubPtr s4 = c->CreateSubscriber("/t", [&](Datagram d) { if(!(d == rich())) bad++; seen++; damage(d); });
    PubPtr p = c->CreatePublisher("/t");
    Runner run(root);
    Datagram mine = rich();
    p->Publish(mine);
    damage(mine);             // the publisher goes on using its datagram
    mine["later"] = std::string("x");
    settle();
    Datagram again = rich();
    p->Publish(again);
    Datagram alias = again["deep"];
    alias["er"]["x"] = 0;
    MC_CHECK(again.Get<int>("deep/er/x", -1) == 0, "isolation", "the publisher's own datagram is detached");
    settle();
    run.stop();
    MC_CHECK(seen == 8, "delivery", "%d of 8 deliveries", seen);
    MC_CHECK(bad == 0, "isolation", "subscribers observed content different from what was published (code %d)", bad);
  }

  // messages published with a foreign sender, directly on the bus
  void isolation_message()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("kid");
    std::vector<std::string> senders;
    std::vector<std::string> topics;
    SubPtr s = root->CreateSubscriber("/**/*");
    s->SetMessageCallback([&](Message m) { log_ev(EV_RECV, 1, number_of(m.GetDatagram())); McQuiet q; senders.push_back(m.GetSender()); topics.push_back(m.GetTopic()); m.PrependSender("x"); });
    SubPtr s2 = c->CreateSubscriber("/a");
    s2->SetMessageCallback([&](Message m) { log_ev(EV_RECV, 2, number_of(m.GetDatagram())); McQuiet q; if(m.GetSender() != "far/away") senders.push_back("bad " + m.GetSender()); });
    PubPtr pr = root->CreatePublisher("/b");
    PubPtr pc = c->CreatePublisher("/c");
    Runner run(root);
    c->Publish(Message("far/away", "/a", numbered(1)));
    pr->Publish(numbered(2));
    pc->Publish(numbered(3));
    settle();
    run.stop();
    expect_received(1, {1, 2, 3}, "delivery", "wildcard");
    expect_received(2, {1}, "delivery", "child");
    McQuiet q;
    std::vector<std::string> ws{"far/away", "root", "kid"}, wt{"/a", "/b", "/c"};
    MC_CHECK(senders == ws, "sender", "senders are wrong: %s %s %s", senders.size() > 0 ? senders[0].c_str() : "-", senders.size() > 1 ? senders[1].c_str() : "-", senders.size() > 2 ? senders[2].c_str() : "-");
    MC_CHECK(topics == wt, "topic", "topics are wrong");
  }

  // complete messages with all kinds of senders and topics, datagrams from publishers with all kinds of bus names
  void isolation_senders()
  {
    static const std::string NAMES[] = {"", "x", "root", "kid", "kid/sub", "/", "//", " ", "a/b/c", std::string(300, 's'), std::string("n\0l", 3), "\xc3\xa4", "*", "sender"};
    const int N = sizeof NAMES / sizeof *NAMES;
    int how = mc_choose(4, "published by");          // Bus::Publish, publisher's message..., on a bus of that name
    int level = mc_choose(3, "level");
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr kid = root->CreateChildBus("kid"), sub = kid->CreateChildBus("sub");
    BusPtr at = level == 0 ? root : level == 1 ? kid : sub;
    struct Seen { std::string sender, topic; int n; };
    static std::vector<Seen> seen[3];
    for(auto& v : seen) v.clear();
    std::vector<SubPtr> subs;
    BusPtr all[3] = {root, kid, sub};
    for(int i = 0; i < 3; i++)
    {
      SubPtr s = all[i]->CreateSubscriber("/**/*");
      s->SetMessageCallback([i](Message m) { McQuiet q; seen[i].push_back(Seen{m.GetSender(), m.GetTopic(), number_of(m.GetDatagram())}); m.PrependSender("damage"); });
      subs.push_back(s);
    }
    static const char* TOPICS[] = {"/t", "/a/b", "/x y", "/"};
    Runner run(root);
    std::vector<Seen> want;
    for(int i = 0; i < N; i++)
    {
      std::string topic = how == 3 ? "/" + NAMES[i] : TOPICS[i % 4];
      std::string sender = NAMES[i];
      if(how == 0) at->Publish(Message(sender, topic, numbered(i)));
      if(how == 1)
      {
        if(sender.empty()) continue;
        BusPtr b;
        try { b = at->CreateChildBus(sender); } catch(lp::exceptions::DuplicateKeyException&) { b = at->GetChildBus(sender); }
        b->CreatePublisher(topic)->Publish(numbered(i));
      }
      if(how == 2) { Message m(sender, topic, numbered(i)); at->Publish(m); m.PrependSender("later"); }
      if(how == 3) { at->CreatePublisher(topic)->Publish(numbered(i)); sender = at->GetIdentifier(); }
      want.push_back(Seen{sender, topic, i});
      settle();
    }
    run.stop();
    McQuiet q;
    for(int i = 0; i < 3; i++)
    {
      MC_CHECK(seen[i].size() == want.size(), "delivery", "%d of %d messages arrived", (int)seen[i].size(), (int)want.size());
      for(size_t k = 0; k < want.size(); k++)
      {
        MC_CHECK(seen[i][k].sender == want[k].sender, "sender", "a message with the sender \"%s\" arrived as one of \"%s\"", want[k].sender.substr(0, 40).c_str(), seen[i][k].sender.substr(0, 40).c_str());
        MC_CHECK(seen[i][k].topic == want[k].topic, "topic", "a message with the topic \"%s\" arrived with \"%s\"", want[k].topic.substr(0, 40).c_str(), seen[i][k].topic.substr(0, 40).c_str());
        MC_CHECK(seen[i][k].n == want[k].n, "isolation", "message %d arrived as %d", want[k].n, seen[i][k].n);
      }
    }
    mc_outcome("ok");
  }

  // ------------------------------------------------------------------ unsubscribe finality
  struct Resource { int canary; };

  void unsub_race()
  {
    BusPtr root = std::make_shared<Bus>("root");
    Resource* res = new Resource{42};
    SubPtr s1 = root->CreateSubscriber("/t", [res](Datagram d) { log_ev(EV_RECV, 1, number_of(d)); if(res->canary != 42) mc_fail("unsubscribe", "callback ran on a released resource"); });
    SubPtr s2 = recorder(root, "/t", 2);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p, 1, 1); publish(p, 1, 2); });
    root->DeleteSubscriber(s1);
    int mark = log_ev(EV_MARK, 1, 0);
    delete res;
    MC_CHECK(!root->ContainsSubscriber(s1), "membership", "a deleted subscriber is still a member");
    MC_CHECK(root->ContainsSubscriber(s2), "membership", "another subscriber was removed");
    t1.join();
    settle();
    run.stop();
    expect_received(2, {1, 2}, "delivery", "remaining subscriber");
    McQuiet q;
    for(int i = mark; i < LOG.n; i++)
      MC_CHECK(!(LOG.e[i].kind == EV_RECV && LOG.e[i].who == 1), "unsubscribe", "the callback ran after DeleteSubscriber had returned");
    outcome_of({1});
  }

  // the same on a child bus, with two threads deleting different subscribers
  void unsub_child()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(c, "/t", 1);
    SubPtr s2 = recorder(c, "/**/*", 2);
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    p->Publish(numbered(1));
    std::thread t1([&] { c->DeleteSubscriber(s2); log_ev(EV_MARK, 2, 0); });
    c->DeleteSubscriber(s1);
    log_ev(EV_MARK, 1, 0);
    p->Publish(numbered(2));
    t1.join();
    settle();
    run.stop();
    McQuiet q;
    for(int w = 1; w <= 2; w++)
    {
      int mark = find_ev(EV_MARK, w, 0);
      for(int i = mark; i < LOG.n; i++) MC_CHECK(!(LOG.e[i].kind == EV_RECV && LOG.e[i].who == w), "unsubscribe", "the callback ran after DeleteSubscriber had returned");
    }
    MC_CHECK(count_ev(EV_RECV, 1, 2) == 0, "unsubscribe", "a message published after the deletion was delivered");
    outcome_of({1, 2});
  }

  // deleting what is not there: null, twice, a subscriber of another bus
  void unsub_foreign()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s1 = recorder(root, "/t", 1);
    SubPtr s2 = recorder(c, "/t", 2);
    SubPtr s3 = recorder(root, "/t", 3);
    PubPtr p = root->CreatePublisher("/t");
    PubPtr pc = c->CreatePublisher("/t");
    Runner run(root);
    int k = mc_choose(4, "what");
    try
    {
      if(k == 0) root->DeleteSubscriber(nullptr);
      else if(k == 1) { root->DeleteSubscriber(s3); root->DeleteSubscriber(s3); }
      else if(k == 2) { root->DeleteSubscriber(s2); c->DeleteSubscriber(s1); }
      else { root->DeletePublisher(nullptr); root->DeletePublisher(pc); c->DeletePublisher(p); }
    }
    catch(std::exception&)
    {
      mc_outcome("rejected");
    }
    MC_CHECK(root->ContainsSubscriber(s1) && c->ContainsSubscriber(s2), "membership", "a subscriber vanished by deleting something else");
    MC_CHECK(root->ContainsPublisher(p) && c->ContainsPublisher(pc), "membership", "a publisher vanished by deleting something else");
    MC_CHECK(root->ContainsSubscriber(s3) == (k != 1), "membership", "membership of subscriber 3 is wrong");
    MC_CHECK(!root->ContainsSubscriber(s2) && !c->ContainsSubscriber(s1), "membership", "foreign membership");
    p->Publish(numbered(1));
    pc->Publish(numbered(2));
    settle();
    run.stop();
    expect_received(1, {1, 2}, "foreign-delete", "deleting something else");
    expect_received(2, {1, 2}, "foreign-delete", "deleting something else");
    expect_received(3, k == 1 ? std::vector<int>() : std::vector<int>{1, 2}, "foreign-delete", "deleting something else");
  }

  // changing the callback of a subscriber while it receives
  void unsub_replace()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s = root->CreateSubscriber("/t");
    s->SetDatagramCallback([](Datagram d) { log_ev(EV_RECV, 1, number_of(d)); });
    PubPtr p = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p, 1, 1); publish(p, 1, 2); });
    s->SetMessageCallback([](Message m) { log_ev(EV_RECV, 2, number_of(m.GetDatagram())); });
    t1.join();
    settle();
    run.stop();
    McQuiet q;
    for(int m = 1; m <= 2; m++)
    {
      int c = count_ev(EV_RECV, 1, m) + count_ev(EV_RECV, 2, m);
      MC_CHECK(c == 1, "replace-callback", "message %d reached the callbacks %d times while the callback was replaced", m, c);
    }
    MC_CHECK(!(count_ev(EV_RECV, 2, 1) && count_ev(EV_RECV, 1, 2)), "replace-callback", "the old callback ran after the new one");
    outcome_of({1, 2});
  }

  // ------------------------------------------------------------------ publisher deletion
  void delpub_race()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s = recorder(root, "/t", 1);
    PubPtr p = root->CreatePublisher("/t");
    PubPtr other = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { publish(p, 1, 1); publish(p, 1, 2); publish(other, 2, 3); });
    root->DeletePublisher(p);
    int mark = log_ev(EV_MARK, 1, 0);
    MC_CHECK(!root->ContainsPublisher(p), "membership", "a deleted publisher is still a member");
    MC_CHECK(root->ContainsPublisher(other), "membership", "another publisher was removed");
    t1.join();
    settle();
    run.stop();
    McQuiet q;
    for(int m = 1; m <= 2; m++)
    {
      int c = count_ev(EV_RECV, 1, m);
      MC_CHECK(c <= 1, "delete-publisher", "message %d delivered %d times", m, c);
      if(find_ev(EV_PUB_BEGIN, 1, m) > mark) MC_CHECK(c == 0, "delete-publisher", "message %d was published through a deleted publisher and delivered", m);
      if(find_ev(EV_PUB_END, 1, m) < mark) {}   // may race with the deletion itself: both answers are fine
    }
    MC_CHECK(count_ev(EV_RECV, 1, 3) == 1, "delivery", "the other publisher's message was not delivered");
    outcome_of({1});
  }

  // completed publications before the deletion starts are delivered; later ones are not
  void delpub_sequential()
  {
    BusPtr root = std::make_shared<Bus>("root");
    BusPtr c = root->CreateChildBus("c");
    SubPtr s = recorder(root, "/t", 1);
    PubPtr p = c->CreatePublisher("/t");
    PubPtr q2 = c->CreatePublisher("/t");
    publish(p, 1, 1);
    Runner run(root);
    publish(p, 1, 2);
    c->DeletePublisher(p);
    publish(p, 1, 3);
    publish(q2, 1, 4);
    c->DeletePublisher(p);
    publish(p, 1, 5);
    settle();
    run.stop();
    expect_received(1, {1, 2, 4}, "delete-publisher", "publications around a deletion");
  }

  // two threads delete and publish through the same two publishers
  void delpub_cross()
  {
    BusPtr root = std::make_shared<Bus>("root");
    SubPtr s = recorder(root, "/t", 1);
    PubPtr p1 = root->CreatePublisher("/t");
    PubPtr p2 = root->CreatePublisher("/t");
    Runner run(root);
    std::thread t1([&] { root->DeletePublisher(p1); log_ev(EV_MARK, 1, 0); publish(p2, 2, 2); });
    root->DeletePublisher(p2);
    log_ev(EV_MARK, 2, 0);
    publish(p1, 1, 1);
    t1.join();
    settle();
    run.stop();
    McQuiet q;
    for(int w = 1; w <= 2; w++)
      if(find_ev(EV_PUB_BEGIN, w, w) > find_ev(EV_MARK, w, 0))
        MC_CHECK(count_ev(EV_RECV, 1, w) == 0, "delete-publisher", "a deleted publisher still published");
    outcome_of({1});
  }
}

static const mc_scenario S[] = {
  {"deliver_tree", deliver_tree, 1, 2, 0, "3-level tree, 5 subscribers (exact, other topic, wildcard), 2 publishing threads + bus thread"},
  {"deliver_fanout", deliver_fanout, 1, 2, 0, "5 subscribers of one topic, 2 publishing threads + bus thread"},
  {"deliver_late_subscriber", deliver_late_subscriber, 2, 3, 0, "subscriber created while 3 messages flow"},
  {"deliver_late_child", deliver_late_child, 1, 2, 0, "child bus created while messages flow"},
  {"deliver_neighbours", deliver_neighbours, 2, 3, 0, "middle of 3 subscribers deleted while messages flow"},
  {"deliver_before_start", deliver_before_start, 2, 3, 0, "messages published before and during start"},
  {"deliver_burst_small", deliver_burst_small, 1, 2, 0, "burst of 12 messages"},
  {"deliver_burst_large", deliver_burst_large, 0, 0, 0, "burst of 1200 messages, all forced switches"},
  {"deliver_sizes", deliver_sizes, 0, 0, 0, "1 to 100 .. 513 subscribers, children, levels, publishers, topics, characters of topics, messages published from a callback"},
  {"unsub_sizes", unsub_sizes, 0, 0, 0, "the same with four selections of subscribers deleted in between"},
  {"delpub_sizes", delpub_sizes, 0, 0, 0, "the same with four selections of publishers deleted in between"},
  {"deliver_wide", deliver_wide, 0, 0, 0, "24 child buses, 48 subscribers"},
  {"deliver_topics", deliver_topics, 0, 0, 0, "18 topics subscribed on root and child, each published"},
  {"deliver_sequences4", sequences4, 0, 0, 0, "all operation sequences of length 4 vs. a reference model"},
  {"deliver_sequences5", sequences5, 0, 0, 0, "all operation sequences of length 5 vs. a reference model"},
  {"deliver_sequences6", sequences6, 0, 0, 0, "all operation sequences of length 6 vs. a reference model"},
  {"deliver_equal", equal_messages, 1, 2, 0, "4 equal messages from two threads"},
  {"deliver_equal_sequences", churn5, 0, 0, 0, "all sequences of 5 operations on 2 subscribers and 2 publishers, equal messages"},
  {"deliver_churn", churn5, 0, 0, MC_REUSE, "the same, freed memory is used again"},
  {"deliver_churn6", churn6, 0, 0, MC_REUSE, "the same with 6 operations"},
  {"deliver_churn7", churn7, 0, 0, MC_REUSE, "the same with 7 operations"},
  {"delpub_churn", delpub_sizes, 0, 0, MC_REUSE, "delpub_sizes, freed memory is used again"},
  {"unsub_churn", unsub_sizes, 0, 0, MC_REUSE, "unsub_sizes, freed memory is used again"},
  {"unsub_race_reuse", unsub_race, 1, 2, MC_REUSE, "unsub_race, freed memory and thread identities are used again"},
  {"delpub_race_reuse", delpub_race, 1, 2, MC_REUSE, "delpub_race, freed memory and thread identities are used again"},
  {"order_two_publishers", order_two_publishers, 1, 2, 0, "2 threads x 2 messages, 2 subscribers on different buses"},
  {"order_shared_publisher", order_shared_publisher, 2, 3, 0, "2 threads share one publisher"},
  {"order_relay", order_relay, 2, 3, 0, "a subscriber republishes from its callback"},
  {"order_prompt", order_prompt, 3, 4, 0, "3 messages to an idle bus, virtual-time latency"},
  {"order_prompt_wakeups", order_prompt, 2, 3, MC_SPURIOUS, "order_prompt; the bus may wake up without reason"},
  {"order_two_publishers_wakeups", order_two_publishers, 1, 2, MC_SPURIOUS, "order_two_publishers; the bus may wake up without reason"},
  {"order_clock", order_clock, 1, 2, 0, "the wall clock is set by +-1 h, +-50 ms and back around publications to an idle bus"},
  {"order_prompt_pair", order_prompt_pair, 3, 4, 0, "2 messages in a row to an idle bus and its child, virtual-time latency"},
  {"order_long", order_long, 0, 1, 0, "2 threads x 25 messages"},
  {"isolation", isolation, 2, 3, 0, "publisher and subscribers modify their copies of a nested datagram"},
  {"isolation_message", isolation_message, 1, 2, 0, "sender and topic of messages from root, child and a foreign sender"},
  {"isolation_senders", isolation_senders, 0, 0, 0, "14 senders / bus names / topics, published in four ways on three levels"},
  {"unsub_race", unsub_race, 2, 3, 0, "DeleteSubscriber against 2 publications; resource freed afterwards"},
  {"unsub_child", unsub_child, 2, 3, 0, "two threads delete subscribers of a child bus"},
  {"unsub_foreign", unsub_foreign, 1, 2, 0, "null, repeated and foreign deletions"},
  {"unsub_replace", unsub_replace, 2, 3, 0, "callback replaced while messages arrive"},
  {"delpub_race", delpub_race, 2, 3, 0, "DeletePublisher against publications"},
  {"delpub_sequential", delpub_sequential, 2, 3, 0, "publications before and after a deletion"},
  {"delpub_cross", delpub_cross, 2, 3, 0, "two threads delete and use two publishers"},
};

int main(int argc, char** argv) { return mc_main(argc, argv, S, sizeof S / sizeof *S); }
