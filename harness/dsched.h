// A deterministic scheduler for code compiled with -fsanitize=thread but linked with this runtime
// instead of the sanitizer's: exactly one thread runs at a time, every synchronisation operation
// (atomic access, mutex, condition variable, thread start and join, sleep) is a point at which
// another thread may be chosen, and an explorer enumerates those choices, bounded by the number of
// preemptions. Accesses are checked for data races (by happens-before) and for use after free.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Options {
  int preemptions = 2;      // involuntary switches (and early timeouts) per execution
  bool early_timeouts = false;  // timed waits may end although others can run
  long max_runs = 100000;   // enumerated executions
  long random_runs = 0;     // further executions with random choices
  uint64_t seed = 1;
  long max_steps = 200000;
  bool races = true;
};

// Enumerates executions: while (e.next()) { prepare; e.run(bodies); inspect; }
class Explorer {
 public:
  explicit Explorer(Options o);
  bool next();
  // runs the bodies as controlled threads 0.. until all of them are done
  void run(const std::vector<std::function<void()>>& bodies);
  long runs() const { return runs_; }
  bool exhausted() const { return exhausted_; }
  // the choices of the last execution, for replay
  std::string schedule() const;
  std::string error;        // deadlock, race, use after free, ... of the last execution
  int leftover = 0;         // threads started by the code that had neither ended nor been joined
  int64_t waited_ns = 0;    // by how much virtual time was advanced because nothing could run

 private:
  Options o_;
  long runs_ = 0;
  bool exhausted_ = false;
};

// operation log of the running execution (indices are global event numbers)
void note(int op, bool begin);
struct Event {
  int op;
  bool begin;
  int64_t now;
};
const std::vector<Event>& events();
int choose(int n);        // a choice of the environment
void yield();             // a scheduling point without effect
void unwatched(const std::function<void()>& f);  // f runs as one step, its accesses are not checked
extern unsigned processors;  // that std::thread::hardware_concurrency() reports
int self();               // controlled thread or -1
// called with the message of an error that ends the process (the world is in an arbitrary state)
extern void (*on_fatal)(const std::string&);
}  // namespace sched
