// Shared pieces of the controlled-scheduler harnesses.
#pragma once
#include <mc.h>

#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <streambuf>
#include <string>
#include <thread>
#include <vector>

#include <lamppost/bus/Bus.h>

// The entropy source is owned by the harness: value = function of the calling thread's own history.
namespace entropy
{
  static unsigned counters[64];
  inline unsigned next()
  {
    McQuiet q;
    int t = mc_tid();
    if(t < 0) t = 0;
    return 0x10000u * (unsigned)(t + 1) + (++counters[t & 63]);
  }
}
#ifdef HARNESS_MAIN
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
unsigned std::random_device::_M_getval() { return entropy::next(); }
#endif

typedef std::shared_ptr<lp::bus::Bus> BusPtr;
typedef std::shared_ptr<lp::bus::Publisher> PubPtr;
typedef std::shared_ptr<lp::bus::Subscriber> SubPtr;
using lp::bus::Bus;
using lp::messages::Datagram;
using lp::messages::Message;
using lp::messages::RawDatagramType;

inline void settle(int ms = 350) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

// Runs Bus::Start on a thread of its own.
struct Runner
{
  std::shared_ptr<Bus> bus;
  std::thread thread;
  explicit Runner(BusPtr b) : bus(b) { start(); }
  void start()
  {
    Bus* b = bus.get();
    thread = std::thread([b] { b->Start(); });
  }
  void stop()
  {
    bus->Stop();
    thread.join();
  }
  ~Runner() { if(thread.joinable()) stop(); }
};

// ---- observation log (oracle state: fixed storage, not instrumented)
enum EvKind { EV_RECV, EV_PUB_BEGIN, EV_PUB_END, EV_MARK };
struct Ev
{
  EvKind kind;
  int who;    // subscriber / publisher id
  int msg;    // message number
  long at;    // virtual ms
  int tid;
};
struct EvLog
{
  Ev e[6000];
  int n;
};
static EvLog LOG;

inline int log_ev(EvKind k, int who, int msg)
{
  static const char* names[] = {"recv", "publish-begin", "publish-end", "mark"};
  mc_event(names[k], who, msg);
  McQuiet q;
  if(LOG.n >= 6000) mc_fail("harness", "log full");
  Ev& x = LOG.e[LOG.n];
  x.kind = k; x.who = who; x.msg = msg; x.at = mc_now_ms(); x.tid = mc_tid();
  return LOG.n++;
}

inline int find_ev(EvKind k, int who, int msg, int from = 0)
{
  McQuiet q;
  for(int i = from; i < LOG.n; i++) if(LOG.e[i].kind == k && LOG.e[i].who == who && LOG.e[i].msg == msg) return i;
  return -1;
}
inline int count_ev(EvKind k, int who, int msg)
{
  McQuiet q;
  int c = 0;
  for(int i = 0; i < LOG.n; i++) if(LOG.e[i].kind == k && LOG.e[i].who == who && (msg < 0 || LOG.e[i].msg == msg)) c++;
  return c;
}
inline std::string received(int who)
{
  McQuiet q;
  std::string s;
  for(int i = 0; i < LOG.n; i++) if(LOG.e[i].kind == EV_RECV && LOG.e[i].who == who) { s += (s.empty() ? "" : ","); s += std::to_string(LOG.e[i].msg); }
  return s;
}
inline std::vector<int> received_list(int who)
{
  std::vector<int> r;
  for(int i = 0; i < LOG.n; i++) if(LOG.e[i].kind == EV_RECV && LOG.e[i].who == who) r.push_back(LOG.e[i].msg);
  return r;
}

// ---- messages carry their number
inline Datagram numbered(int n)
{
  Datagram d;
  d["n"] = n;
  d["text"] = std::string("message ") + std::to_string(n);
  return d;
}
inline int number_of(Datagram d)
{
  McQuiet q;
  int n = d.Get<int>("n", -1);
  if(d.Get<std::string>("text", "") != "message " + std::to_string(n)) return -2;
  return n;
}

inline void publish(PubPtr p, int who, int n)
{
  Datagram d = numbered(n);
  log_ev(EV_PUB_BEGIN, who, n);
  p->Publish(d);
  log_ev(EV_PUB_END, who, n);
}

// A subscriber that records what it receives under the id "who".
inline SubPtr recorder(BusPtr bus, const std::string& topic, int who)
{
  return bus->CreateSubscriber(topic, [who](Datagram d) { log_ev(EV_RECV, who, number_of(d)); });
}

inline void expect_received(int who, std::vector<int> want, const char* key, const char* what)
{
  McQuiet q;
  std::vector<int> got = received_list(who);
  std::vector<int> g = got;
  std::sort(g.begin(), g.end());
  std::sort(want.begin(), want.end());
  if(g != want)
  {
    std::string w;
    for(int x : want) w += std::to_string(x) + " ";
    mc_fail(key, "%s: subscriber %d received [%s], expected exactly [%s]", what, who, received(who).c_str(), w.c_str());
  }
}

inline void outcome_of(std::initializer_list<int> subs)
{
  McQuiet q;
  std::string s;
  for(int i : subs) s += (s.empty() ? "" : " | ") + received(i);
  mc_outcome(s.c_str());
}

// swallows std::cout while alive
struct NullBuf : std::streambuf
{
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct MuteCout
{
  std::streambuf* old;
  static NullBuf& buf() { static NullBuf b; return b; }
  MuteCout() { McQuiet q; old = std::cout.rdbuf(&buf()); }
  ~MuteCout() { McQuiet q; std::cout.rdbuf(old); }
};

// one of n alternatives (in two steps, the engine limits the alternatives of one)
inline int pick(int n)
{
  int b = 12, a = mc_choose((n + b - 1) / b, "index / 12"), left = n - a * b;
  return a * b + mc_choose(left < b ? left : b, "index % 12");
}
// numbers at which something that counts, grows or is laid out in blocks may change its behaviour
inline int some_count(int limit = 257)
{
  static const int C[] = {1, 2, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513};
  int n = 0;
  while(n < (int)(sizeof C / sizeof *C) && C[n] <= limit) n++;
  return C[pick(n)];
}
