// Executes ThreadPool client programs under the controlled scheduler and logs API-level events.
//   pool_driver < scenarios
// each line: "<mode> <count> <seed> <program>", mode = rand | dfs | free
// program: "n|main ops|client ops|..."; see lib/checks_pool.py for the operations.
#include <nuSQuIDS/ThreadPool.h>
#include "ctlsched.h"
#include <iostream>
#include <sstream>
#include <set>
#include <unordered_set>
#include <atomic>
#include <csignal>

static std::vector<std::string> evlog;      // events of the current run
static std::mutex* freemx=nullptr;        // only in free-running mode
static int tid(){ return sched::self?sched::self->id:-1; }
static thread_local int free_tid=-1;
static std::atomic<int> free_next{0};
static void ev(const std::string& s){
  if(freemx){ std::lock_guard<std::mutex> l(*freemx); evlog.push_back(s); }
  else evlog.push_back(s);
}
static int me(){ if(sched::active) return tid(); if(free_tid<0) free_tid=free_next++; return free_tid; }
static std::string I(int i){ return std::to_string(i); }
#define EV(...) do{ std::ostringstream _o; _o<<__VA_ARGS__; ev(_o.str()); }while(0)

struct TaskErr : std::runtime_error{ int id; TaskErr(int i):std::runtime_error("task "+I(i)),id(i){} };
struct Task{ std::function<bool()> ready; std::function<std::string()> get; bool accepted=false; bool logged=false; bool got=false; };
static std::map<int,Task> tasks; static std::mutex* tasks_mx=nullptr;
static ThreadPool* pool=nullptr; static bool joining=false; static sched::Thread* closer=nullptr;
static std::map<int,int> barrier_count; static std::mutex* bar_mx=nullptr;
static std::set<int> programIds;

struct Op{ char c; int id; char kind; int a,b; };
typedef std::vector<Op> Ops;

static void spin(){ if(sched::active) sched::yield(); else std::this_thread::yield(); }
static void await(std::function<bool()> p){
  if(sched::active) sched::wait_until(p); else while(!p()) std::this_thread::yield();
}
static void do_enqueue(const Op& op);

static void body_start(int id){ EV("{\"e\":\"start\",\"c\":"<<me()<<",\"t\":"<<id<<"}"); spin(); }
static void body_end(int id,const char* o){ spin(); EV("{\"e\":\"end\",\"c\":"<<me()<<",\"t\":"<<id<<",\"o\":\""<<o<<"\"}"); }

static void common(const Op& op){
  if(op.kind=='y'){ for(int i=0;i<op.a;i++) spin(); }
  if(op.kind=='n'||op.kind=='l'){
    if(op.kind=='l') await([]{ return joining; });
    Op c{'E',op.a,'p',0,0}; do_enqueue(c);
  }
  if(op.kind=='b'){
    int g=op.a, m=op.b;
    if(sched::active){ barrier_count[g]++; sched::wait_until([g,m]{ return barrier_count[g]>=m; }); }
    else{ { std::lock_guard<std::mutex> l(*bar_mx); barrier_count[g]++; }
      while(true){ { std::lock_guard<std::mutex> l(*bar_mx); if(barrier_count[g]>=m) break; } std::this_thread::yield(); } }
  }
}
static int body_int(Op op,int arg){ body_start(op.id); common(op); if(arg!=op.id*7) { body_end(op.id,"badarg"); return -1; } body_end(op.id,"val"); return 100+op.id; }
static void body_void(Op op){ body_start(op.id); body_end(op.id,"val"); }
static std::string body_string(Op op,std::string s){ body_start(op.id); body_end(op.id,s==("arg"+I(op.id))?"val":"badarg"); return "s"+I(op.id); }
static std::unique_ptr<int> body_uptr(Op op){ body_start(op.id); body_end(op.id,"val"); return std::unique_ptr<int>(new int(100+op.id)); }
static int body_throw(Op op){ body_start(op.id); body_end(op.id,"exc"); throw TaskErr(op.id); }

template<class F> static std::string outcome(int id,F f){
  try{ return f(); }
  catch(TaskErr& e){ return e.id==id?"exc":"wrongexc"; }
  catch(std::future_error&){ return "broken"; }
  catch(...){ return "otherexc"; }
}
template<class T,class F> static void store(int id,std::future<T> fut,F conv){
  auto p=std::make_shared<std::future<T>>(std::move(fut));
  Task t;
  t.ready=[p]{ return p->valid() && p->wait_for(std::chrono::seconds(0))==std::future_status::ready; };
  t.get=[p,id,conv]{ return outcome(id,[&]{ return conv(*p)?std::string("val"):std::string("wrongval"); }); };
  t.accepted=true;
  if(tasks_mx){ std::lock_guard<std::mutex> l(*tasks_mx); tasks[id]=t; } else tasks[id]=t;
}
static void do_enqueue(const Op& op){
  int id=op.id;
  EV("{\"e\":\"enqcall\",\"c\":"<<me()<<",\"t\":"<<id<<"}");
  try{
    switch(op.kind){
      case 't': store(id,pool->enqueue(body_throw,op),[](std::future<int>& f){ f.get(); return false; }); break;
      case 'v': store(id,pool->enqueue(body_void,op),[](std::future<void>& f){ f.get(); return true; }); break;
      case 's':{ std::string s="arg"+I(id);
        store(id,pool->enqueue(body_string,op,s),[id](std::future<std::string>& f){ return f.get()=="s"+I(id); });
        s="changed"; break; }
      case 'u': store(id,pool->enqueue(body_uptr,op),[id](std::future<std::unique_ptr<int>>& f){ return *f.get()==100+id; }); break;
      default:{ int arg=id*7;
        store(id,pool->enqueue([](Op o,int a){ return body_int(o,a); },op,arg),[id](std::future<int>& f){ return f.get()==100+id; });
        arg=-5; }
    }
    EV("{\"e\":\"enqret\",\"c\":"<<me()<<",\"t\":"<<id<<"}");
  }catch(std::exception& e){
    EV("{\"e\":\"enqthrow\",\"c\":"<<me()<<",\"t\":"<<id<<"}");
  }
}
static Task* find(int id){ if(tasks_mx){ std::lock_guard<std::mutex> l(*tasks_mx); auto i=tasks.find(id); return i==tasks.end()?nullptr:&i->second; }
  auto i=tasks.find(id); return i==tasks.end()?nullptr:&i->second; }
static void get_task(int id){
  Task* t=find(id);
  if(t->got) return; t->got=true;
  EV("{\"e\":\"get\",\"c\":"<<me()<<",\"t\":"<<id<<",\"o\":\""<<t->get()<<"\"}");
}
static void do_wait(int id){
  Task* t=find(id); if(!t||!t->accepted||t->got) return;
  auto r=t->ready; await([r,t]{ return t->got || r(); });
  get_task(id);
}
static Ops parse(const std::string& s){
  Ops r; std::stringstream ss(s); std::string w;
  while(std::getline(ss,w,',')) if(!w.empty()){
    Op o{w[0],0,'p',0,0}; size_t k=1; o.id=0;
    while(k<w.size()&&isdigit(w[k])) o.id=o.id*10+(w[k++]-'0');
    if(k<w.size()) o.kind=w[k++];
    while(k<w.size()&&isdigit(w[k])) o.a=o.a*10+(w[k++]-'0');
    if(k<w.size()&&w[k]=='x'){ k++; while(k<w.size()&&isdigit(w[k])) o.b=o.b*10+(w[k++]-'0'); }
    r.push_back(o);
  }
  return r;
}
static void run_ops(const Ops& ops){
  for(const Op& o: ops){
    if(o.c=='E') do_enqueue(o);
    else if(o.c=='W') do_wait(o.id);
    else if(o.c=='Y') for(int i=0;i<3;i++) spin();
  }
}
static void run_program(const std::string& prog){
  std::stringstream ss(prog); std::string part; std::vector<std::string> parts;
  while(std::getline(ss,part,'|')) parts.push_back(part);
  int n=atoi(parts[0].c_str());
  alarm(120);
  evlog.clear(); tasks.clear(); barrier_count.clear(); joining=false; closer=nullptr; free_next=0; free_tid=-1;
  me();
  pool=new ThreadPool(n);
  EV("{\"e\":\"new\",\"n\":"<<n<<"}");
  std::vector<Ops> cl; for(size_t i=2;i<parts.size();i++) cl.push_back(parse(parts[i]));
  {
    std::vector<std::thread> th;
    for(auto& c: cl) th.emplace_back([&c]{ EV("{\"e\":\"client\",\"c\":"<<me()<<"}"); run_ops(c); });
    run_ops(parse(parts.size()>1?parts[1]:""));
    for(auto& t: th) t.join();
  }
  EV("{\"e\":\"dtorcall\",\"c\":"<<me()<<"}");
  closer=sched::self;
  if(!sched::active) joining=true;
  delete pool; 
  EV("{\"e\":\"dtorret\",\"c\":"<<me()<<"}");
  for(auto& kv: tasks) if(kv.second.accepted && !kv.second.got){
    if(kv.second.ready()) get_task(kv.first);
    else EV("{\"e\":\"get\",\"c\":"<<me()<<",\"t\":"<<kv.first<<",\"o\":\"notready\"}");
  }
}
static std::unordered_set<std::string> seen; static long runs=0, distinct=0; static std::string curprog, cursched;
static void flush_run(const char* tail){
  runs++;
  std::string all;
  for(auto& s: evlog){ all+=s; all+="\n"; }
  if(tail) all+=std::string("{\"e\":\"")+tail+"\"}\n";
  if(tail || seen.insert(curprog+all).second){
    distinct++;
    fputs(("{\"e\":\"reset\",\"p\":\""+curprog+"\"}\n"+all).c_str(),stdout);
  }
}
static void crash(int s){
  const char* m=s==SIGALRM?"hang":"crash";
  flush_run(m); printf("#stat runs=%ld distinct=%ld signal=%d\n",runs,distinct,s); fflush(stdout); _exit(0);
}
int main(){
  for(int s: {SIGSEGV,SIGABRT,SIGBUS,SIGFPE,SIGILL,SIGALRM}) signal(s,crash);
  sched::on_abort=[](const char* why){ flush_run(why); printf("#stat runs=%ld distinct=%ld\n",runs,distinct); fflush(stdout); };
  sched::on_join=[](sched::Thread* t){ if(closer && sched::self==closer && !joining){ joining=true; ev("{\"e\":\"joining\"}"); } };
  sched::on_step=[]{ for(auto& kv: tasks) if(!kv.second.logged && !kv.second.got && kv.second.ready()){ kv.second.logged=true; ev("{\"e\":\"ready\",\"t\":"+I(kv.first)+"}"); } };
  std::string line;
  while(std::getline(std::cin,line)){
    std::stringstream ss(line); std::string mode,prog; long count; uint64_t seed;
    ss>>mode>>count>>seed>>prog; curprog=prog;
    if(mode=="rand"){
      sched::dfs=false;
      for(long k=0;k<count;k++){
        sched::rng=(seed*2654435761ULL+k*40503ULL+12345)|1; for(int z=0;z<5;z++){ sched::rng^=sched::rng<<13; sched::rng^=sched::rng>>7; sched::rng^=sched::rng<<17; }
        double ps[]={0.08,0.25,0.5,1.0}; sched::pswitch=ps[k%4]; sched::spurious_budget=(k%3==2)?3:0;
        sched::begin(); run_program(prog); sched::end(); flush_run(nullptr);
      }
    }else if(mode=="dfs"){
      sched::dfs=true; sched::prefix.clear(); sched::spurious_budget=int(seed%2); sched::preempt_bound=int(seed/10);
      for(long k=0;k<count;k++){
        sched::begin(); run_program(prog); sched::end(); flush_run(nullptr);
        auto& r=sched::record; int i=int(r.size())-1;
        while(i>=0 && r[i].chosen+1>=r[i].alts) i--;
        if(i<0){ printf("#exhausted %s %ld\n",prog.c_str(),k+1); break; }
        sched::prefix.clear(); for(int j=0;j<i;j++) sched::prefix.push_back(r[j].chosen); sched::prefix.push_back(r[i].chosen+1);
      }
    }else{
      std::mutex a,b,c; freemx=&a; tasks_mx=&b; bar_mx=&c;
      for(long k=0;k<count;k++){ run_program(prog); flush_run(nullptr); }
      freemx=nullptr; tasks_mx=nullptr; bar_mx=nullptr;
    }
  }
  printf("#stat runs=%ld distinct=%ld\n",runs,distinct); fflush(stdout); _exit(0);
}
