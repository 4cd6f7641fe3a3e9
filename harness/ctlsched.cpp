#include "ctlsched.h"
#include <cerrno>
namespace sched{
bool active=false; thread_local Thread* self=nullptr; std::vector<Thread*> threads;
std::function<void(const char*)> on_abort; std::function<void(Thread*)> on_join; std::function<void()> on_step;
bool dfs=false; std::vector<int> prefix; std::vector<Point> record; int preempt_bound=2;
uint64_t rng=1; double pswitch=0.5; int spurious_budget=0; long step_limit=20000;
static std::map<void*,Thread*> owner;
static long steps=0; static int preempts=0; static int spurious=0; static bool in_sched=false;

static uint64_t rnd(){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
static double rndu(){ return (rnd()>>11)*(1.0/9007199254740992.0); }

// one decision among alts options; option 0 is the default
static int choose(int alts){
  if(alts<=1) return 0;
  if(dfs){
    size_t k=record.size();
    int c=k<prefix.size()?prefix[k]:0;
    if(c>=alts) c=alts-1;
    record.push_back({alts,c});
    return c;
  }
  return int(rnd()%alts);
}
static bool mutex_free(void* m){ auto it=owner.find(m); return it==owner.end()||!it->second; }
static bool enabled(Thread* t){
  switch(t->st){
    case RUN: return true;
    case MUTEX: return mutex_free(t->mtx);
    case COND: return t->notified && mutex_free(t->mtx);
    case JOIN: return t->target->st==DONE;
    case PRED: return t->pred();
    case DONE: return false;
  }
  return false;
}
static void abort_run(const char* why){ if(on_abort) on_abort(why); _exit(0); }

// pick who runs next; me may be blocked or done
static Thread* pick(Thread* me){
  if(in_sched) return me;
  in_sched=true;
  if(on_step) on_step();
  if(++steps>step_limit) abort_run("livelock");
  std::vector<Thread*> en;
  bool me_en=me->st!=DONE && enabled(me);
  if(me_en) en.push_back(me);
  for(Thread* t: threads) if(t!=me && enabled(t)) en.push_back(t);
  if(en.empty()){
    for(Thread* t: threads) if(t->st==COND && t->timed && mutex_free(t->mtx)) en.push_back(t);
    if(en.empty()) abort_run("deadlock");
  }
  size_t real=en.size();
  if(spurious<spurious_budget)
    for(Thread* t: threads) if(t->st==COND && !t->notified && mutex_free(t->mtx)) en.push_back(t);
  Thread* n;
  if(dfs){
    bool budget=!me_en || preempts<preempt_bound;
    int alts=budget?int(en.size()):1;
    int c=choose(alts);
    n=en[c];
    if(me_en && n!=me) preempts++;
    if(c>=int(real)) spurious++;
  }else{
    if(me_en && rndu()>=pswitch) n=me;
    else{
      size_t lim=en.size();
      if(lim>real && rndu()>0.3) lim=real;
      size_t c=rnd()%lim; n=en[c]; if(c>=real) spurious++;
    }
  }
  in_sched=false;
  return n;
}
static void handoff(Thread* me, Thread* n){
  if(n==me) return;
  sem_post(&n->sem);
  if(me->st==DONE) return;
  while(sem_wait(&me->sem)!=0){}
}
static void point(){ Thread* me=self; handoff(me,pick(me)); }
void yield(){ if(active&&self) point(); }
void wait_until(std::function<bool()> p){
  Thread* me=self; me->pred=p; me->st=PRED; handoff(me,pick(me)); me->st=RUN; me->pred=nullptr;
}
void begin(){
  threads.clear(); owner.clear(); steps=0; preempts=0; spurious=0; record.clear();
  Thread* t=new Thread(); t->id=0; t->st=RUN; sem_init(&t->sem,0,0); t->handle=pthread_self();
  threads.push_back(t); self=t; active=true;
}
void end(){
  active=false; self=nullptr;
  for(Thread* t: threads){ sem_destroy(&t->sem); delete t; }
  threads.clear();
}
static void* trampoline(void* p){
  Thread* t=static_cast<Thread*>(p);
  while(sem_wait(&t->sem)!=0){}
  self=t;
  void* r=t->fn(t->arg);
  t->st=DONE;
  Thread* n=pick(t);
  self=nullptr;
  sem_post(&n->sem);
  return r;
}
static void lock_loop(Thread* me, void* m){
  while(!mutex_free(m)){ me->st=MUTEX; me->mtx=m; handoff(me,pick(me)); }
  me->st=RUN; owner[m]=me;
}
template<class F> static F real(const char* n){ return (F)dlsym(RTLD_NEXT,n); }
#define MANAGED (sched::active && sched::self)
static int cond_wait(void* c, void* m, bool timed){
  Thread* me=self;
  point();
  owner[m]=nullptr;
  me->st=COND; me->obj=c; me->mtx=m; me->notified=false; me->timed=timed;
  handoff(me,pick(me));
  bool got=me->notified;
  lock_loop(me,m);
  return got||!timed?0:ETIMEDOUT;
}
}
using namespace sched;
extern "C"{
int pthread_mutex_lock(pthread_mutex_t* m){
  static auto r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if(!MANAGED) return r(m);
  point(); lock_loop(self,m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m){
  static auto r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if(!MANAGED) return r(m);
  point(); if(!mutex_free(m)) return EBUSY; owner[m]=self; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m){
  static auto r=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if(!MANAGED) return r(m);
  owner[m]=nullptr; point(); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m){
  static auto r=real<int(*)(pthread_cond_t*,pthread_mutex_t*)>("pthread_cond_wait");
  if(!MANAGED) return r(c,m);
  return cond_wait(c,m,false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts){
  static auto r=real<int(*)(pthread_cond_t*,pthread_mutex_t*,const struct timespec*)>("pthread_cond_timedwait");
  if(!MANAGED) return r(c,m,ts);
  return cond_wait(c,m,true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts){
  static auto r=real<int(*)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*)>("pthread_cond_clockwait");
  if(!MANAGED) return r(c,m,k,ts);
  return cond_wait(c,m,true);
}
int pthread_cond_signal(pthread_cond_t* c){
  static auto r=real<int(*)(pthread_cond_t*)>("pthread_cond_signal");
  if(!MANAGED) return r(c);
  point();
  std::vector<Thread*> w;
  for(Thread* t: threads) if(t->st==COND && t->obj==c && !t->notified) w.push_back(t);
  if(!w.empty()) w[choose(int(w.size()))]->notified=true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c){
  static auto r=real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if(!MANAGED) return r(c);
  point();
  for(Thread* t: threads) if(t->st==COND && t->obj==c) t->notified=true;
  return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void*(*fn)(void*), void* arg){
  static auto r=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create");
  if(!MANAGED) return r(h,a,fn,arg);
  Thread* t=new Thread(); t->id=int(threads.size()); t->st=RUN; sem_init(&t->sem,0,0); t->fn=fn; t->arg=arg; t->notified=false;
  int e=r(h,a,&trampoline,t);
  if(e){ delete t; return e; }
  t->handle=*h;
  threads.push_back(t);
  point();
  return 0;
}
int pthread_join(pthread_t h, void** ret){
  static auto r=real<int(*)(pthread_t,void**)>("pthread_join");
  if(!MANAGED) return r(h,ret);
  Thread* tgt=nullptr;
  for(Thread* t: threads) if(pthread_equal(t->handle,h)) tgt=t;   // last created with that handle
  if(!tgt) return r(h,ret);
  if(on_join) on_join(tgt);
  point();
  Thread* me=self; me->target=tgt; me->st=JOIN;
  handoff(me,pick(me)); me->st=RUN;
  return r(h,ret);
}
int sched_yield(void){
  static auto r=real<int(*)(void)>("sched_yield");
  if(!MANAGED) return r();
  point(); return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b){
  static auto r=real<int(*)(const struct timespec*,struct timespec*)>("nanosleep");
  if(!MANAGED) return r(a,b);
  point(); return 0;
}
int clock_nanosleep(clockid_t k,int f,const struct timespec* a, struct timespec* b){
  static auto r=real<int(*)(clockid_t,int,const struct timespec*,struct timespec*)>("clock_nanosleep");
  if(!MANAGED) return r(k,f,a,b);
  point(); return 0;
}
}
