// Public interface of the controlled-scheduler model checker (libmc.so).
//
// A scenario body is ordinary C++ that uses the real LampPost classes and real
// std::thread / std::mutex / std::condition_variable / std::atomic.  The engine
// runs it over and over, one execution per combination of scheduling and
// environment choices, until every combination within the bound was explored.
#pragma once
#include <cstdint>

#ifdef __cplusplus
extern "C" {
#endif

typedef void (*mc_body_fn)(void);

enum
{
  MC_EAGER_TIMEOUTS = 1,  // a timed wait may expire early (thread was slow): cost 1 each
  MC_SIGNAL = 2,          // signals may interrupt the main thread at any point: free, as often as mc_signals allows
  MC_SPURIOUS = 4,        // condition waits may wake up spuriously: cost 1 each
  MC_SEQUENTIAL = 8,      // single-threaded scenario (no scheduling points expected)
  MC_REUSE = 32,          // freed memory and the identity of ended threads are used again at once
  MC_NO_RACES = 16        // do not report data races (never used by registered checks)
};

struct mc_scenario
{
  const char* name;
  mc_body_fn body;
  int bound_quick;      // deviation (preemption/fault/early timeout) bound
  int bound_thorough;
  int flags;
  const char* what;     // one line: threads, operations
};

// Data nondeterminism: every value 0..n-1 is explored at no cost.
int mc_choose(int n, const char* label);
// Environment deviation: value 0 is the normal answer, 1..n-1 cost one deviation each.
int mc_deviate(int n, const char* label);
// An observable event; totally ordered, and a scheduling point.
void mc_event(const char* kind, long a, long b);
// Scheduling point without an event.
void mc_point(const char* label);
// A property violation: ends the execution.  key identifies the finding.
void mc_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Note an observed outcome (counted as distinct outcomes over the exploration).
void mc_outcome(const char* text);
// Virtual time in milliseconds since the start of the execution.
long mc_now_ms(void);
// The wall clock (system_clock, CLOCK_REALTIME) is set forward (or, negative, back) by that much: deadlines on it move,
// the steady clock does not.
void mc_clock_jump(long ms);
// Id of the calling controlled thread (0: main).
int mc_tid(void);
// Number of controlled threads that have not finished (including the caller).
int mc_live_threads(void);
// Switches instrumentation of plain memory accesses off/on for the calling thread (oracle code).
void mc_quiet(int on);
// Registers the handler the MC_SIGNAL flag delivers (runs on the main thread).
void mc_set_signal_handler(void (*fn)(void));
// How many signals may come (default 1), and the virtual time after which an idle program gets the first for sure.
void mc_signals(int count, long deadline_ms);
// Number of signals delivered so far.
int mc_signal_delivered(void);
// Delivers the signal synchronously if it has not been delivered yet.
void mc_deliver_signal_now(void);
// True if the pointed-to heap block is still allocated.
int mc_heap_live(const void* p);
// Bytes currently allocated with operator new inside this execution / number of blocks.
long mc_heap_blocks(void);

int mc_main(int argc, char** argv, const struct mc_scenario* scenarios, int count);

#ifdef __cplusplus
}

#define MC_CHECK(cond, key, ...) do { if(!(cond)) { mc_fail((key), __VA_ARGS__); } } while(0)

struct McQuiet
{
  McQuiet() { mc_quiet(1); }
  ~McQuiet() { mc_quiet(0); }
};
#endif
