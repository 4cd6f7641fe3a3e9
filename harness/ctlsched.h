// Controlled scheduler: interposes the pthread primitives of this executable so
// that exactly one managed thread runs at a time and every synchronisation
// operation is a scheduling choice.  Choices come from a DFS prefix or a seeded rng.
#ifndef VP_SCHED_H
#define VP_SCHED_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sched{
enum State{RUN,MUTEX,COND,JOIN,PRED,DONE};
struct Thread{
  int id; State st; sem_t sem; pthread_t handle;
  void* obj; void* mtx; Thread* target; bool notified; bool timed;
  std::function<bool()> pred;
  void*(*fn)(void*); void* arg;
};
struct Point{ int alts; int chosen; };

extern bool active;
extern thread_local Thread* self;
extern std::vector<Thread*> threads;
extern std::function<void(const char*)> on_abort;   // deadlock / step limit
extern std::function<void(Thread*)> on_join;         // a managed thread is about to join another
extern std::function<void()> on_step;                // at every scheduling point
void begin();                      // main becomes thread 0
void end();
void yield();                      // explicit scheduling point
void wait_until(std::function<bool()> p);
// strategy
extern bool dfs; extern std::vector<int> prefix; extern std::vector<Point> record; extern int preempt_bound;
extern uint64_t rng; extern double pswitch; extern int spurious_budget; extern long step_limit;
}
#endif
