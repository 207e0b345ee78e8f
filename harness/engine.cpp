// Programs whose reachable outcomes are known: do the engine and its stand-ins explore exactly these?  (check.py --selftest)
#include <mc.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <shared_mutex>
#include <string>
#include <sys/select.h>
#include <sys/time.h>
#include <thread>
#include <time.h>

namespace
{
  typedef std::chrono::milliseconds ms;
  void note(int a, int b = -1, int c = -1)
  {
    McQuiet q;
    std::string s = std::to_string(a);
    if(b >= 0) s += "," + std::to_string(b);
    if(c >= 0) s += "," + std::to_string(c);
    mc_outcome(s.c_str());
  }
  template<class F, class G> void both(F f, G g) { std::thread a(f), b(g); a.join(); b.join(); }

  void store_buffering()
  {
    std::atomic<int> x{0}, y{0}; int r = 0, s = 0;
    both([&] { x = 1; r = y; }, [&] { y = 1; s = x; });
    note(r, s);
  }
  void lost_update()
  {
    std::atomic<int> n{0};
    auto f = [&] { for(int i = 0; i < 2; i++) { int v = n; n = v + 1; } };
    both(f, f);
    note(n);
  }
  void three_orders()
  {
    std::mutex m; int at = 0, seen[3];
    auto f = [&](int i) { std::lock_guard<std::mutex> l(m); seen[at++] = i; };
    std::thread a(f, 0), b(f, 1), c(f, 2); a.join(); b.join(); c.join();
    note(seen[0], seen[1], seen[2]);
  }
  void message_passing()
  {
    int data = 0; std::atomic<bool> ready{false}; int got = 5;
    both([&] { data = 1; ready.store(true, std::memory_order_release); }, [&] { if(ready.load(std::memory_order_acquire)) got = data; });
    note(got);
  }
  void message_passing_relaxed()
  {
    int data = 0; std::atomic<bool> ready{false}; int got = 5;
    both([&] { data = 1; ready.store(true, std::memory_order_relaxed); }, [&] { if(ready.load(std::memory_order_relaxed)) got = data; });
    note(got);
  }
  void plain_race() { int n = 0; both([&] { n++; }, [&] { n++; }); note(n); }
  void lock_order()
  {
    std::mutex a, b;
    both([&] { std::lock_guard<std::mutex> x(a), y(b); }, [&] { std::lock_guard<std::mutex> x(b), y(a); });
    note(1);
  }
  void lost_notify()
  {
    std::mutex m; std::condition_variable c; std::atomic<bool> go{false};
    both([&] { if(!go) { std::unique_lock<std::mutex> l(m); c.wait(l); } }, [&] { go = true; c.notify_one(); });
    note(1);
  }
  void notify()
  {
    std::mutex m; std::condition_variable c; bool go = false;
    both([&] { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return go; }); }, [&] { { std::lock_guard<std::mutex> l(m); go = true; } c.notify_one(); });
    note(1);
  }
  void spurious()
  {
    std::mutex m; std::condition_variable c; bool go = false; int woke = 0;
    both([&] { std::unique_lock<std::mutex> l(m); if(!go) { c.wait(l); woke = go ? 1 : 2; } }, [&] { { std::lock_guard<std::mutex> l(m); go = true; } c.notify_one(); });
    note(woke);
  }
  void timed_condition()
  {
    std::mutex m; std::condition_variable c; bool go = false, r = false;
    both([&] { std::unique_lock<std::mutex> l(m); r = c.wait_for(l, ms(10), [&] { return go; }); }, [&] { std::this_thread::sleep_for(ms(5 + 10 * mc_choose(2, "late"))); { std::lock_guard<std::mutex> l(m); go = true; } c.notify_one(); });
    note(r, mc_now_ms());
  }
  void timed_mutex()
  {
    std::timed_mutex m; int r = 0;
    both([&] { std::lock_guard<std::timed_mutex> l(m); std::this_thread::sleep_for(ms(10)); },
         [&] { std::this_thread::sleep_for(ms(1)); bool a = m.try_lock_for(ms(5)); if(a) m.unlock(); bool b = m.try_lock_until(std::chrono::system_clock::now() + ms(20)); if(b) m.unlock(); r = a * 2 + b; });
    note(r);
  }
  void shared_timed()
  {
    std::shared_timed_mutex m; int r = 0;
    both([&] { { std::unique_lock<std::shared_timed_mutex> l(m); std::this_thread::sleep_for(ms(10)); } m.lock_shared(); std::this_thread::sleep_for(ms(20)); m.unlock_shared(); },
         [&]
         {
           std::this_thread::sleep_for(ms(1));
           bool a = m.try_lock_shared_for(ms(5)); if(a) m.unlock_shared();                                            // at 1: written to until 10
           bool b = m.try_lock_shared_until(std::chrono::system_clock::now() + ms(7)); if(b) m.unlock_shared();        // at 6
           std::this_thread::sleep_for(ms(2));
           bool c = m.try_lock_for(ms(3)); if(c) m.unlock();                                                           // at 12: read until 30
           bool d = m.try_lock_until(std::chrono::steady_clock::now() + ms(40)); if(d) m.unlock();
           r = a * 8 + b * 4 + c * 2 + d;
         });
    note(r);
  }
  void futures()
  {
    std::promise<int> p; std::future<int> f = p.get_future(); int got = 0, early = 0;
    both([&] { early = f.wait_for(ms(0)) == std::future_status::ready; got = f.get(); }, [&] { p.set_value(7); });
    note(got, early);
  }
  void once()
  {
    static int made; made = 0; std::once_flag o; int data = 0;
    auto f = [&] { std::call_once(o, [&] { data = 3; made++; }); if(data != 3) made += 10; };
    both(f, f);
    note(made);
  }
  void semaphores()
  {
    sem_t s; sem_init(&s, 0, 0); int data = 0, got = 0, first = 0;
    both([&] { data = 4; sem_post(&s); }, [&] { first = sem_trywait(&s) == 0; if(!first) { while(sem_wait(&s) != 0) { } } got = data; });
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1;
    int rc = sem_timedwait(&s, &ts), e = errno;
    sem_destroy(&s);
    note(got, first, rc == -1 && e == ETIMEDOUT && mc_now_ms() == 1000);
  }
  void semaphore_stuck() { sem_t s; sem_init(&s, 0, 1); sem_wait(&s); sem_wait(&s); note(1); }
  void spin_locks()
  {
    pthread_spinlock_t s; pthread_spin_init(&s, 0); int n = 0, busy = 0;
    both([&] { pthread_spin_lock(&s); n++; pthread_spin_unlock(&s); }, [&] { if(pthread_spin_trylock(&s) == 0) { n++; pthread_spin_unlock(&s); } else busy = 1; });
    note(n, busy);
  }
  void clocks()
  {
    timeval a, b; gettimeofday(&a, nullptr); time_t t = time(nullptr);
    poll(nullptr, 0, 1500);
    timeval d = {0, 500000}; select(0, nullptr, nullptr, nullptr, &d);
    mc_clock_jump(-1000);
    gettimeofday(&b, nullptr);
    note((int)mc_now_ms(), (int)(b.tv_sec - a.tv_sec), (int)(time(nullptr) - t));
  }
  void freed()
  {
    std::unique_ptr<int> p(new int(1)); int* q = p.get(); std::mutex m; int r = 0;
    both([&] { std::lock_guard<std::mutex> l(m); p.reset(); }, [&] { std::lock_guard<std::mutex> l(m); r = *q; });
    note(r);
  }
  void dead_mutex()
  {
    struct S { std::mutex m; }; S* s = new S;
    both([&] { std::lock_guard<std::mutex> l(s->m); std::this_thread::sleep_for(ms(1)); }, [&] { std::this_thread::sleep_for(ms(2)); delete s; });
    note(1);
    std::unique_ptr<S> u(new S); S* v = u.get();
    both([&] { std::this_thread::sleep_for(ms(2)); v->m.lock(); v->m.unlock(); }, [&] { u.reset(); });
  }
  void spinning()
  {
    std::atomic<bool> go{false};
    both([&] { while(!go) std::this_thread::yield(); }, [&] { go = true; });
    note(1);
  }
  void reuse()
  {
    int* p = new int(1); delete p; int* q = new int(2); bool same = p == q; delete q;
    std::thread::id a, b, c;
    std::thread s([&] { a = std::this_thread::get_id(); }); bool mine = s.get_id() != std::this_thread::get_id(); s.join();
    std::thread t([&] { b = std::this_thread::get_id(); }); std::thread u([&] { c = std::this_thread::get_id(); }); t.join(); u.join();
    note(same, mine && a == b && b != c);
  }
  void early()
  {
    std::mutex m; std::condition_variable c; std::atomic<int> n{0}; int at = 0;
    both([&] { std::this_thread::sleep_for(ms(10)); at = n; }, [&] { for(int i = 0; i < 2; i++) { std::this_thread::sleep_for(ms(3)); n++; } });
    note(at);
  }

  const mc_scenario SC[] = {
    {"store_buffering", store_buffering, 3, 3, 0, ""}, {"lost_update", lost_update, 3, 3, 0, ""}, {"three_orders", three_orders, 3, 3, 0, ""},
    {"message_passing", message_passing, 3, 3, 0, ""}, {"message_passing_relaxed", message_passing_relaxed, 3, 3, 0, ""}, {"plain_race", plain_race, 3, 3, 0, ""},
    {"lock_order", lock_order, 3, 3, 0, ""}, {"lost_notify", lost_notify, 3, 3, 0, ""}, {"notify", notify, 3, 3, 0, ""}, {"spurious", spurious, 3, 3, MC_SPURIOUS, ""},
    {"timed_condition", timed_condition, 3, 3, 0, ""}, {"timed_mutex", timed_mutex, 1, 1, 0, ""}, {"shared_timed", shared_timed, 1, 1, 0, ""}, {"futures", futures, 3, 3, 0, ""},
    {"once", once, 3, 3, 0, ""}, {"semaphores", semaphores, 3, 3, 0, ""}, {"semaphore_stuck", semaphore_stuck, 1, 1, 0, ""}, {"spin_locks", spin_locks, 3, 3, 0, ""},
    {"no_reuse", reuse, 1, 1, 0, ""}, {"reuse", reuse, 1, 1, MC_REUSE, ""},
    {"clocks", clocks, 1, 1, 0, ""}, {"freed", freed, 3, 3, 0, ""}, {"dead_mutex", dead_mutex, 1, 1, 0, ""}, {"spinning", spinning, 3, 3, 0, ""}, {"early", early, 3, 3, MC_EAGER_TIMEOUTS, ""},
  };
}
int main(int argc, char** argv) { return mc_main(argc, argv, SC, sizeof SC / sizeof *SC); }
