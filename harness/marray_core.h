// Interpreter of array-operation scripts; every effect is logged as one JSON line per event.
#pragma once
#include <cstdint>
#include <cstddef>
#include <nuSQuIDS/marray.h>
#include <nuSQuIDS/aligned_alloc.h>
#include <map>
#include <memory>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <unordered_set>
#include <type_traits>
#include <stdexcept>

struct Fault : std::bad_alloc { const char* what() const noexcept override { return "injected"; } };

namespace led {
// one block handed out by a logging allocator
struct Block { int serial; char* base; size_t bytes, n, esize; int al; };
extern std::map<char*, Block> blocks;   // by base address (zero-size blocks get a unique byte)
extern int nextSerial;
extern std::unordered_set<const void*> live;   // tracked objects alive
extern long tmps;      // tracked objects alive outside blocks
extern long countdown; // <0: no fault armed
extern bool fired;
void line(const std::string&);
void flushRun();
void elem(char kind, const void* p);  // 'c' constructed, 'd' destroyed
void bad(const char* what);
inline void faultPoint(){ if(countdown>0 && --countdown==0){ countdown=-1; fired=true; throw Fault(); } }
}

// allocator that logs; identity id; propagation policies as template flags
template<typename T, bool PCCA, bool PCMA, bool PCS, bool SOC>
struct LAlloc {
  using value_type=T;
  using propagate_on_container_copy_assignment=std::integral_constant<bool,PCCA>;
  using propagate_on_container_move_assignment=std::integral_constant<bool,PCMA>;
  using propagate_on_container_swap=std::integral_constant<bool,PCS>;
  template<typename U> struct rebind { using other=LAlloc<U,PCCA,PCMA,PCS,SOC>; };
  int id;
  explicit LAlloc(int i=0):id(i){}
  template<typename U> LAlloc(const LAlloc<U,PCCA,PCMA,PCS,SOC>& o):id(o.id){}
  LAlloc select_on_container_copy_construction() const { return LAlloc(SOC ? id+10 : id); }
  T* allocate(size_t n){
    led::flushRun();
    led::faultPoint();
    if(n>1000000) throw std::bad_alloc();
    char* p=(char*)std::malloc(n*sizeof(T)+1);
    led::Block b{led::nextSerial++,p,n*sizeof(T),n,sizeof(T),id};
    led::blocks[p]=b;
    led::line("{\"e\":\"alloc\",\"b\":"+std::to_string(b.serial)+",\"al\":"+std::to_string(id)+",\"n\":"+std::to_string(n)+"}");
    return (T*)p;
  }
  void deallocate(T* q,size_t n){
    led::flushRun();
    auto it=led::blocks.find((char*)q);
    int s=it==led::blocks.end() ? (q?-1:0) : it->second.serial;
    led::line("{\"e\":\"free\",\"b\":"+std::to_string(s)+",\"al\":"+std::to_string(id)+",\"n\":"+std::to_string(n)+"}");
    if(it!=led::blocks.end()){ std::free(it->second.base); led::blocks.erase(it); }
  }
  bool operator==(const LAlloc& o) const { return id==o.id; }
  bool operator!=(const LAlloc& o) const { return id!=o.id; }
};

// tracked element; NM: moves cannot throw
template<bool NM>
struct Elem {
  int v;
  Elem():v(0){ led::faultPoint(); led::elem('c',this); }
  Elem(int x):v(x){ led::elem('c',this); }
  Elem(const Elem& o):v(0){ o.chk("copy from a dead element"); led::faultPoint(); v=o.v; led::elem('c',this); }
  Elem(Elem&& o) noexcept(NM):v(0){ o.chk("move from a dead element"); if(!NM) led::faultPoint(); v=o.v; o.v=-777; led::elem('c',this); }
  Elem& operator=(const Elem& o){ chk("assign to a dead element"); o.chk("assign from a dead element"); led::faultPoint(); v=o.v; return *this; }
  Elem& operator=(Elem&& o) noexcept(NM){ chk("assign to a dead element"); o.chk("assign from a dead element"); if(!NM) led::faultPoint(); if(&o!=this){ v=o.v; o.v=-777; } return *this; }
  ~Elem(){ if(!led::live.count(this)) led::bad("destroy a dead element"); led::elem('d',this); }
  void chk(const char* w) const { if(!led::live.count(this)) led::bad(w); }
};
inline int val(int x){ return x; }
inline int val(double x){ return x==(int)x ? (int)x : -999; }
template<bool NM> int val(const Elem<NM>& e){ if(!led::live.count(&e)) return -555; return e.v; }
inline int val(const std::string& s){ return s.empty()?0:atoi(s.c_str()); }
template<typename T> T mk(int x){ return T(x); }
template<> inline std::string mk<std::string>(int x){ return x?std::to_string(x)+std::string(20,' '):std::string(); }

template<typename A> struct AllocInfo { static int id(const A&){ return -1; } static A make(int){ return A(); } };
template<typename T,bool a,bool b,bool c,bool d> struct AllocInfo<LAlloc<T,a,b,c,d>> {
  static int id(const LAlloc<T,a,b,c,d>& x){ return x.id; } static LAlloc<T,a,b,c,d> make(int i){ return LAlloc<T,a,b,c,d>(i); } };
template<typename T> struct AllocInfo<aligned_allocator<T>> {
  static int id(const aligned_allocator<T>&){ return -1; } static aligned_allocator<T> make(int i){ return aligned_allocator<T>(3+i%4); } };
template<typename A> struct IsL : std::false_type{};
template<typename T,bool a,bool b,bool c,bool d> struct IsL<LAlloc<T,a,b,c,d>> : std::true_type{};

inline std::string js(const std::vector<long>& v){ std::string s="["; for(size_t i=0;i<v.size();i++){ if(i) s+=","; s+=std::to_string(v[i]); } return s+"]"; }

template<typename T, unsigned R, typename Al>
struct Interp {
  using A=nusquids::marray<T,R,Al>;
  static constexpr int NS=4;
  std::unique_ptr<A> slot[NS];
  unsigned pathN=0;
  using Dims=std::array<size_t,R>;
  template<typename F> static void withList(const std::vector<size_t>& d, F f){
    switch(d.size()){
      case 0: f(std::initializer_list<size_t>{}); break;
      case 1: f({d[0]}); break; case 2: f({d[0],d[1]}); break; case 3: f({d[0],d[1],d[2]}); break;
      case 4: f({d[0],d[1],d[2],d[3]}); break; default: f({d[0],d[1],d[2],d[3],d[4]}); break;
    }
  }
  // chained subscripts
  template<typename P,unsigned K> struct Chain { template<typename Q> static int get(Q&& q,const Dims& c){ return Chain<P,K+1>::get(q[c[K]],c); }
    template<typename Q> static void set(Q&& q,const Dims& c,const T& v){ Chain<P,K+1>::set(q[c[K]],c,v); } };
  template<typename P> struct Chain<P,R> { template<typename Q> static int get(Q&& q,const Dims&){ return val(q); }
    template<typename Q> static void set(Q&& q,const Dims&,const T& v){ q=v; } };
  template<typename Q> static int il(Q& q,const Dims& c){ std::vector<size_t> v(c.begin(),c.end()); int r=0; withList(v,[&](std::initializer_list<size_t> l){ r=val(q[l]); }); return r; }
  static bool next(Dims& c,const Dims& sh){ for(int k=R-1;k>=0;k--){ if(++c[k]<sh[k]) return true; c[k]=0; } return false; }
  static Dims shape(const A& a){ Dims d; for(unsigned i=0;i<R;i++) d[i]=a.extent(i); return d; }

  std::string observe(int s){
    A& a=*slot[s]; const A& ca=a;
    Dims sh=shape(a); size_t n=1; for(size_t x: sh) n*=x;
    std::vector<long> shv(sh.begin(),sh.end()), d; bool usable=n==a.size() && n<100000;
    static const char* names[]={"flat","chain","cchain","il","cil","cont","ccont","it","cit","rit","crit","iidx","arith","range"};
    unsigned p=pathN++%14;
    if(usable && n){
      Dims c; c.fill(0);
      switch(p){
        case 0: for(size_t i=0;i<n;i++) d.push_back(val(a.get_data()[i])); break;
        case 1: do d.push_back(Chain<A,0>::get(a,c)); while(next(c,sh)); break;
        case 2: do d.push_back(Chain<A,0>::get(ca,c)); while(next(c,sh)); break;
        case 3: do d.push_back(il(a,c)); while(next(c,sh)); break;
        case 4: do d.push_back(il(ca,c)); while(next(c,sh)); break;
        case 5: do d.push_back(val(a[c])); while(next(c,sh)); break;
        case 6: do d.push_back(val(ca[std::vector<size_t>(c.begin(),c.end())])); while(next(c,sh)); break;
        case 7: for(auto i=a.begin();i!=a.end();++i) d.push_back(val(*i)); break;
        case 8: for(auto i=ca.cbegin();i<ca.cend();i++) d.push_back(val(*i)); break;
        case 9: for(auto i=a.rbegin();i!=a.rend();++i) d.insert(d.begin(),val(*i)); break;
        case 10: for(auto i=ca.crbegin();i<ca.crend();i++) d.insert(d.begin(),val(*i)); break;
        case 11: { auto b=a.begin(); for(size_t i=0;i<n;i++) d.push_back(val(b[i])); break; }
        case 12: { auto e=ca.end(); for(size_t i=0;i<n;i++){ auto x=e; x-=(long)(n-i); d.push_back(val(*x)); } break; }
        default: for(const T& x: ca) d.push_back(val(x)); break;
      }
    }
    int b=-2;
    if(IsL<Al>::value){
      const void* q=(const void*)a.get_data();
      auto it=led::blocks.find((char*)q);
      b= !q?0:(it==led::blocks.end()?-1:it->second.serial);
    }
    std::string o="{\"s\":"+std::to_string(s)+",\"p\":\""+names[p]+"\",\"sh\":"+js(shv)+",\"d\":"+js(d)+",\"n\":"+std::to_string(a.size())
      +",\"em\":"+(a.empty()?"1":"0")+",\"rk\":"+std::to_string(a.rank())+",\"al\":"+std::to_string(AllocInfo<Al>::id(a.get_allocator()))+",\"b\":"+std::to_string(b);
    std::vector<long> sh2; for(size_t x: ca.get_extents()) sh2.push_back(x);
    o+=",\"sh2\":"+js(sh2);
    std::vector<long> fb; if(usable&&n){ fb={val(a.front()),val(a.back()),val(ca.front()),val(ca.back())}; }
    o+=",\"fb\":"+js(fb)+",\"c\":[";
    if(usable && n && pathN%3==0){
      bool first=true; size_t k=0;
      for(auto i=a.begin();i!=a.end();i++,k++){
        std::vector<long> cc; for(unsigned q=0;q<R;q++) cc.push_back(a.getCoordinate(i,q));
        if(!first) o+=","; first=false; o+=js(cc);
      }
    }
    return o+"]}";
  }

  template<unsigned K> struct Tag{};
  static std::initializer_list<T> dummy();
  // nested initialisers of fixed shape; rag: the last innermost row misses its last entry
  template<typename F> static void nested(Tag<1>,const std::vector<T>& v,int rag,F f){ if(rag) f({v[0],v[1]}); else f({v[0],v[1],v[2]}); }
  template<typename F> static void nested(Tag<2>,const std::vector<T>& v,int rag,F f){ if(rag) f({{v[0],v[1],v[2]},{v[3],v[4]}}); else f({{v[0],v[1],v[2]},{v[3],v[4],v[5]}}); }
  template<typename F> static void nested(Tag<3>,const std::vector<T>& v,int rag,F f){ if(rag) f({{{v[0],v[1]}},{{v[2]}}}); else f({{{v[0],v[1]}},{{v[2],v[3]}}}); }
  template<typename F> static void nested(Tag<4>,const std::vector<T>& v,int rag,F f){ if(rag) f({{{{v[0],v[1]}},{{v[2]}}}}); else f({{{{v[0],v[1]}},{{v[2],v[3]}}}}); }
  using NL=typename nusquids::detail::initializer_for_rank<T,R>::type;

  template<typename X,bool trivial=std::is_trivial<X>::value> struct NoInit { static A* mk1(std::initializer_list<size_t> d,const Al& al){ return new A(d,al); } static A* mk2(const Dims& d,const Al& al){ return new A(d,al); } };
  template<typename X> struct NoInit<X,true> { static A* mk1(std::initializer_list<size_t> d,const Al& al){ return new A(d,nusquids::detail::no_init,al); }
    static A* mk2(const Dims& d,const Al& al){ return new A(d,nusquids::detail::no_init,al); } };

  static void newDefault(A*& p,std::initializer_list<size_t> d,std::true_type){ p=new A(d); }
  static void newDefault(A*& p,std::initializer_list<size_t> d,std::false_type){ p=new A(d,AllocInfo<Al>::make(0)); }
  // one attempt at an operation; returns the JSON of the event's fixed part through `ev`
  std::string attempt(const std::vector<long>& t,const std::string& op,const std::vector<T>& vals,const std::vector<int>& iv){
    // t: integer arguments after the operation name
    auto S=[&](int i)->A&{ return *slot[t[i]]; };
    std::vector<size_t> dims;
    try{
      if(op=="new0") slot[t[0]].reset(new A(AllocInfo<Al>::make(t[1])));
      else if(op=="new"||op=="newc"||op=="noinit"||op=="list"||op=="iter"||op=="newd"){
        for(size_t i=2+(op=="list");i<t.size();i++) dims.push_back(t[i]);
        Al al=AllocInfo<Al>::make(t[1]);
        A* p=nullptr;
        if(op=="new") withList(dims,[&](std::initializer_list<size_t> d){ p=new A(d,al); });
        else if(op=="newd"){ withList(dims,[&](std::initializer_list<size_t> d){ newDefault(p,d,std::is_default_constructible<Al>()); }); }
        else if(op=="newc"){ p=new A(dims,al); }
        else if(op=="noinit"){
          if(t[0]%2||dims.size()!=R) withList(dims,[&](std::initializer_list<size_t> d){ p=NoInit<T>::mk1(d,al); });
          else { Dims dd; std::copy(dims.begin(),dims.end(),dd.begin()); p=NoInit<T>::mk2(dd,al); }
          std::unique_ptr<A> g(p); for(auto& x: *p) x=mk<T>(7); g.release();
        }
        else if(op=="list") withList(dims,[&](std::initializer_list<size_t> d){ nested(Tag<R>(),vals,t[2],[&](NL l){ p=new A(d,l,al); }); });
        else withList(dims,[&](std::initializer_list<size_t> d){ p=new A(d,vals.begin(),vals.end(),al); });
        slot[t[0]].reset(p);
      }
      else if(op=="del") slot[t[0]].reset();
      else if(op=="copy") slot[t[0]].reset(new A((const A&)S(1)));
      else if(op=="move") slot[t[0]].reset(new A(std::move(S(1))));
      else if(op=="cassign") S(0)=(const A&)S(1);
      else if(op=="massign") S(0)=std::move(S(1));
      else if(op=="swap") S(0).swap(S(1));
      else if(op=="lassign") nested(Tag<R>(),vals,t[1],[&](NL l){ S(0)=l; });
      else if(op=="set"){
        Dims c; for(unsigned i=0;i<R;i++) c[i]=t[2+i];
        switch(t[1]){
          case 0: Chain<A,0>::set(S(0),c,vals[0]); break;
          case 1: S(0)[c]=vals[0]; break;
          case 2: { std::vector<size_t> v(c.begin(),c.end()); withList(v,[&](std::initializer_list<size_t> l){ S(0)[l]=vals[0]; }); break; }
          default: { Dims sh=shape(S(0)); size_t o=0; for(unsigned i=0;i<R;i++) o=o*sh[i]+c[i]; *(S(0).begin()+o)=vals[0]; }
        }
      }
      else if(op=="fill"){ for(auto& x: S(0)) x=vals[0]; }
      else if(op=="insert") S(0).insert(t[1],t[2],t[3],vals[0]);
      else if(op=="insertd") S(0).insert(t[1],t[2],t[3]);
      else if(op=="erase") S(0).erase(t[1],t[2],t[3]);
      else if(op=="resize") S(0).resize(t[1],t[2]);
      else if(op=="resizen"){ for(size_t i=1;i<t.size();i++) dims.push_back(t[i]); S(0).resize(dims); }
      else if(op=="reshape"){ for(size_t i=1;i<t.size();i++) dims.push_back(t[i]); S(0).reshape(dims); }
      else { fprintf(stderr,"unknown op %s\n",op.c_str()); exit(3); }
    }
    catch(Fault&){ return "fault"; }
    catch(std::logic_error&){ return "refused"; }
    catch(std::bad_alloc&){ return "badalloc"; }
    catch(std::exception&){ return "other"; }
    return "ok";
  }

  void emit(const std::string& op,const std::vector<long>& t,const std::vector<int>& iv,const std::string& r){
    led::flushRun();
    std::vector<long> v(iv.begin(),iv.end());
    std::string o="{\"e\":\"op\",\"op\":\""+op+"\",\"a\":"+js(t)+",\"v\":"+js(v)+",\"r\":\""+r+"\",\"tmp\":"+std::to_string(led::tmps)+",\"obs\":[";
    bool first=true;
    for(int s=0;s<NS;s++) if(slot[s]){ if(!first) o+=","; first=false; o+=observe(s); }
    led::line(o+"]}");
  }

  void run(const std::string& script,const std::string& cfg){
    led::line(cfg);
    std::stringstream ss(script); std::string item;
    while(std::getline(ss,item,';')){
      std::stringstream is(item); std::string op; is>>op;
      bool faults=false; if(op=="F"){ faults=true; is>>op; }
      std::vector<long> t; std::vector<int> iv; std::string tok; bool afterColon=false;
      while(is>>tok){ if(tok==":"){ afterColon=true; continue; } if(afterColon) iv.push_back(atoi(tok.c_str())); else t.push_back(atol(tok.c_str())); }
      long base=led::tmps;
      std::vector<T> vals; for(int x: iv) vals.push_back(mk<T>(x));
      long held=led::tmps-base;
      for(int k=1; k<400; k++){
        led::fired=false; led::countdown=faults?k:-1;
        std::string r=attempt(t,op,vals,iv);
        led::countdown=-1;
        led::tmps-=held; emit(op,t,iv,r); led::tmps+=held;
        if(!faults || !led::fired || (op=="move")) break;
      }
    }
    for(int s=0;s<NS;s++) if(slot[s]){ slot[s].reset(); emit("del",{s},{},"ok"); }
    led::flushRun();
    led::line("{\"e\":\"end\"}");
  }
};

using Runner=void(*)(const std::string&,const std::string&);
struct Reg { Reg(const char* name,Runner r); };
template<typename T,unsigned R,typename Al> void runOne(const std::string& s,const std::string& cfg){ Interp<T,R,Al> i; i.run(s,cfg); }
#define CONCAT_(a,b) a##b
#define CONCAT(a,b) CONCAT_(a,b)
#define REG(name,...) static Reg CONCAT(reg_,__COUNTER__)(name,runOne<__VA_ARGS__>);
