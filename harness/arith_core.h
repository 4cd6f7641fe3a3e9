// Array arithmetic calls on given operands; logs operands, outcome, result and the scalar operation's table.
#pragma once
#include <cstdint>
#include <cstddef>
#include <nuSQuIDS/marray.h>
#include <map>
#include <set>
#include <random>
#include <string>
#include <vector>
#include <cstring>
#include <cstdio>
#include <stdexcept>
using nusquids::marray;
// a numeric type that is not trivial, so that the general code paths are taken
struct Num { int v; Num():v(0){} Num(int x):v(x){} Num(const Num& o):v(o.v){} Num& operator=(const Num& o){ v=o.v; return *this; } ~Num(){}
  Num& operator+=(const Num& o){ v+=o.v; return *this; } Num& operator-=(const Num& o){ v-=o.v; return *this; }
  Num& operator*=(const Num& o){ v*=o.v; return *this; } Num& operator/=(const Num& o){ v/=o.v; return *this; } };
inline Num operator+(Num a,const Num& b){ return a+=b; } inline Num operator-(Num a,const Num& b){ return a-=b; }
inline Num operator*(Num a,const Num& b){ return a*=b; } inline Num operator/(Num a,const Num& b){ return a/=b; } inline Num operator-(const Num& a){ return Num(-a.v); }
template<typename T> struct Intish { static const bool value=true; static long get(const T& x){ return (long)x; } };
template<> struct Intish<Num> { static const bool value=true; static long get(const Num& x){ return x.v; } };
extern std::map<uint64_t,long> tok;
inline long token(double x){ uint64_t b; std::memcpy(&b,&x,8); if(x==0) b=0; if(x!=x) b=~0ull; auto it=tok.find(b); if(it!=tok.end()) return it->second; long n=tok.size()+1; return tok[b]=n; }
template<> struct Intish<double> { static const bool value=false; static long get(double x){ return token(x); } };
template<> struct Intish<float> { static const bool value=false; static long get(float x){ return token(x); } };
template<typename T> long v(const T& x,bool tk){ return tk ? token((double)x) : Intish<T>::get(x); }
template<> inline long v<Num>(const Num& x,bool){ return x.v; }
std::string ints(const std::vector<long>& a);
template<typename T,unsigned R> std::string arr(const marray<T,R>& a,bool tk){
  std::vector<long> s,d; for(unsigned i=0;i<R;i++) s.push_back(a.extent(i));
  size_t n=a.size(); for(size_t i=0;i<n;i++) d.push_back(v(a.get_data()[i],tk));
  return "{\"sh\":"+ints(s)+",\"d\":"+ints(d)+"}"; }
template<typename T> std::string scal(const T& x,bool tk){ return "{\"sh\":[],\"d\":["+std::to_string(v(x,tk))+"]}"; }
extern std::mt19937 rng;
inline int rnd(int n){ return rng()%n; }
template<typename T> T draw();
template<> inline int draw<int>(){ int x=rnd(19)-9; return x?x:4; }
template<> inline long draw<long>(){ int x=rnd(39)-19; return x?x:3; }
template<> inline Num draw<Num>(){ return Num(draw<int>()); }
template<> inline double draw<double>(){ static const double s[]={0.7,-1.3,2.5,1e-3,3.1,-0.4,123.25,0.1}; return s[rnd(8)]; }
template<> inline float draw<float>(){ static const float s[]={0.7f,-1.3f,2.5f,3.1f,-0.4f,12.25f}; return s[rnd(6)]; }
template<typename T,unsigned R> marray<T,R> build(const std::array<size_t,R>& sh){ marray<T,R> a(sh); for(auto& x: a) x=draw<T>(); return a; }
void emitLine(const std::string& s);

template<typename T1,unsigned R1,typename T2,unsigned R2,typename OP>
std::string table(const marray<T1,R1>& x,const marray<T2,R2>& y,OP op){
  std::set<std::pair<long,long>> seen; std::string s="[";
  for(const T1& a: x) for(const T2& b: y){ std::pair<long,long> k(v(a,true),v(b,true)); if(!seen.insert(k).second) continue;
    if(s.size()>1) s+=","; s+="["+std::to_string(k.first)+","+std::to_string(k.second)+","+std::to_string(v(op(a,b),true))+"]"; }
  return s+"]"; }
template<typename A,typename B,typename OP> std::string maybeTable(bool tk,const A& x,const B& y,OP op,std::true_type){ return "[]"; }
template<typename A,typename B,typename OP> std::string maybeTable(bool tk,const A& x,const B& y,OP op,std::false_type){ return table(x,y,op); }

struct Flags { int inpl=0,xr=0,yr=0,alias=0; };
inline std::string head(const char* e,const char* op,bool tk,const Flags& f){
  return std::string("{\"e\":\"")+e+"\",\"op\":\""+op+"\",\"k\":\""+(tk?"tok":"int")+"\",\"inpl\":"+std::to_string(f.inpl)+",\"xr\":"+std::to_string(f.xr)+",\"yr\":"+std::to_string(f.yr)+",\"alias\":"+std::to_string(f.alias); }

// run `call` and log
template<typename X,typename Y,typename F>
void logCall(const std::string& h,const std::string& x,const std::string& y,const std::string& tab,bool tk,F call,X after1,Y after2){
  std::string z="{\"sh\":[],\"d\":[]}",r="ok";
  try{ z=call(); } catch(std::logic_error&){ r="refused"; } catch(std::exception&){ r="other"; }
  emitLine(h+",\"x\":"+x+",\"y\":"+y+",\"tab\":"+tab+",\"r\":\""+r+"\",\"z\":"+z+",\"x2\":"+after1()+",\"y2\":"+after2()+"}");
}

#define OPS4(M) M(add,+) M(sub,-) M(mul,*) M(div,/)

template<typename X,typename Y> void floatFns(const X&,const Y&,const Flags&,std::false_type){}
template<typename T1,unsigned R1,typename T2,unsigned R2> void floatFns(const marray<T1,R1>& x,const marray<T2,R2>& y,const Flags& f,std::true_type){
#define FN(name) { std::string t=table(x,y,[](const T1& a,const T2& b){ return std::name(a,b); }); \
    logCall(head("bin",#name,true,f),arr(x,true),arr(y,true),t,true,[&]{ auto z=name(x,y); return arr(z,true); },[&]{return arr(x,true);},[&]{return arr(y,true);}); }
  using nusquids::atan2; using nusquids::pow; using nusquids::hypot;
  FN(atan2) FN(hypot) FN(pow)
#undef FN
}
// array-array
template<typename T1,unsigned R1,typename T2,unsigned R2>
void arrayArray(const std::array<size_t,R1>& s1,const std::array<size_t,R2>& s2,std::false_type isNum){
  constexpr bool tk=!(Intish<T1>::value && Intish<T2>::value);
  using TK=std::integral_constant<bool,!tk>;
  marray<T1,R1> x=build<T1,R1>(s1); marray<T2,R2> y=build<T2,R2>(s2);
  Flags f;
  auto X=[&]{ return arr(x,tk); }; auto Y=[&]{ return arr(y,tk); };
#define M(name,o) { std::string t=maybeTable(tk,x,y,[](const T1& a,const T2& b){ return a o b; },TK()); \
    logCall(head("bin",#name,tk,f),X(),Y(),t,tk,[&]{ auto z=x o y; return arr(z,tk); },X,Y); }
  OPS4(M)
#undef M
  floatFns(x,y,f,std::integral_constant<bool,(!Intish<T1>::value||!Intish<T2>::value)>());
}
template<typename T1,unsigned R1,typename T2,unsigned R2>
void arrayArray(const std::array<size_t,R1>& s1,const std::array<size_t,R2>& s2,std::true_type isNum){
  marray<T1,R1> x=build<T1,R1>(s1); marray<T2,R2> y=build<T2,R2>(s2);
  Flags f; const bool tk=false;
  auto X=[&]{ return arr(x,tk); }; auto Y=[&]{ return arr(y,tk); };
#define M(name,o) logCall(head("bin",#name,tk,f),X(),Y(),"[]",tk,[&]{ auto z=x o y; return arr(z,tk); },X,Y);
  OPS4(M)
#undef M
}
// any binary function through applyOp: the result tells which elements met and in which order
struct Enc { template<typename A,typename B> long operator()(const A& a,const B& b) const { return Intish<A>::get(a)*1000+Intish<B>::get(b); } };
template<typename T1,unsigned R1,typename T2,unsigned R2>
void apply(const std::array<size_t,R1>& s1,const std::array<size_t,R2>& s2){
  marray<T1,R1> x=build<T1,R1>(s1); marray<T2,R2> y=build<T2,R2>(s2);
  int k=1; for(auto& e: x) e=T1(k++); k=1; for(auto& e: y) e=T2(k++);
  Flags f;
  auto X=[&]{ return arr(x,false); }; auto Y=[&]{ return arr(y,false); };
  logCall(head("bin","enc",false,f),X(),Y(),"[]",false,[&]{ auto z=nusquids::applyOp(x,y,Enc()); return arr(z,false); },X,Y);
}
// compound assignment and scalar forms
template<typename T,unsigned R,typename U>
void scalarForms(const std::array<size_t,R>& s){
  constexpr bool tk=!(Intish<T>::value && Intish<U>::value);
  using TK=std::integral_constant<bool,!tk>;
  const U c=draw<U>(); marray<U,1> cy({1}); cy[0]=c;
#define M(name,o) { marray<T,R> x=build<T,R>(s); const marray<T,R> k(x); Flags f; \
    auto X=[&]{ return arr(x,tk); }; auto K=[&]{ return arr(k,tk); }; auto C=[&]{ return scal(c,tk); }; \
    auto op=[](const T& a,const U& b){ T t=a; t o##= b; return t; }; auto rop=[](const U& b,const T& a){ return T(b o a); }; \
    std::string t=maybeTable(tk,x,cy,op,TK()), u=maybeTable(tk,cy,x,rop,TK()); std::string x0=X(); \
    logCall(head("bin",#name,tk,f),x0,C(),t,tk,[&]{ auto z=x o c; return arr(z,tk); },X,C); \
    logCall(head("bin",#name,tk,f),x0,C(),t,tk,[&]{ auto z=k o c; return arr(z,tk); },K,C); \
    logCall(head("bin",#name,tk,f),C(),x0,u,tk,[&]{ auto z=c o x; return arr(z,tk); },C,X); \
    logCall(head("bin",#name,tk,f),C(),x0,u,tk,[&]{ auto z=c o k; return arr(z,tk); },C,K); \
    { Flags g; g.xr=1; logCall(head("bin",#name,tk,g),x0,C(),t,tk,[&]{ auto z=marray<T,R>(x) o c; return arr(z,tk); },X,C); } \
    { Flags g; g.xr=1; logCall(head("bin",#name,tk,g),x0,C(),t,tk,[&]{ marray<T,R> z=(marray<T,R>(x) o##= c); return arr(z,tk); },X,C); } \
    { Flags g; g.inpl=1; logCall(head("bin",#name,tk,g),x0,C(),t,tk,[&]{ marray<T,R>& z=(x o##= c); return &z==&x ? arr(x,tk) : std::string("{\"sh\":[-1],\"d\":[]}"); },X,C); } }
  OPS4(M)
#undef M
}
template<typename T,unsigned R>
void compound(const std::array<size_t,R>& s){
  constexpr bool tk=!Intish<T>::value; using TK=std::integral_constant<bool,!tk>;
#define M(name,o) { marray<T,R> x=build<T,R>(s),y=build<T,R>(s); auto X=[&]{ return arr(x,tk); }; auto Y=[&]{ return arr(y,tk); }; \
    auto op=[](const T& a,const T& b){ return T(a o b); }; std::string t=maybeTable(tk,x,y,op,TK()); std::string x0=X(),y0=Y(); \
    { Flags g; g.xr=1; logCall(head("bin",#name,tk,g),x0,y0,t,tk,[&]{ marray<T,R> z=(marray<T,R>(x) o##= y); return arr(z,tk); },X,Y); } \
    { Flags g; g.inpl=1; logCall(head("bin",#name,tk,g),x0,y0,t,tk,[&]{ marray<T,R>& z=(x o##= y); return &z==&x ? arr(x,tk) : std::string("{\"sh\":[-1],\"d\":[]}"); },X,Y); } \
    { Flags g; g.inpl=1; g.alias=1; std::string t2=maybeTable(tk,y,y,op,TK()); logCall(head("bin",#name,tk,g),y0,y0,t2,tk,[&]{ y o##= y; return arr(y,tk); },Y,Y); } \
    { marray<T,R> w=build<T,R>(s); std::string w0=arr(w,tk),t3=maybeTable(tk,w,w,op,TK()); Flags g; g.alias=1; logCall(head("bin",#name,tk,g),w0,w0,t3,tk,[&]{ auto z=w o w; return arr(z,tk); },[&]{return arr(w,tk);},[&]{return arr(w,tk);}); } }
  OPS4(M)
#undef M
  { marray<T,R> x=build<T,R>(s); const marray<T,R>& k=x; Flags g; marray<T,1> zero({1}); zero[0]=T(0);
    std::string t=maybeTable(tk,x,zero,[](const T& a,const T&){ return T(-a); },TK());
    // the table's second column is the token of zero; the specification looks up <<x,0>>
    std::string h=head("un","neg",tk,g), x0=arr(x,tk);
    std::string tt="["; { std::set<long> seen; for(const T& a: x){ long q=v(a,true); if(!tk||!seen.insert(q).second) continue; if(tt.size()>1) tt+=","; tt+="["+std::to_string(q)+",0,"+std::to_string(v(T(-a),true))+"]"; } } tt+="]";
    logCall(h,x0,x0,tt,tk,[&]{ auto z=-k; return arr(z,tk); },[&]{return arr(x,tk);},[&]{return arr(x,tk);});
    Flags q; q.xr=1; logCall(head("un","neg",tk,q),x0,x0,tt,tk,[&]{ auto z=-marray<T,R>(x); return arr(z,tk); },[&]{return arr(x,tk);},[&]{return arr(x,tk);}); }
}
#define UNARY(M) M(cos) M(sin) M(tan) M(acos) M(asin) M(atan) M(cosh) M(sinh) M(tanh) M(acosh) M(asinh) M(atanh) M(exp) M(exp2) M(log) M(log2) M(log10) M(sqrt) M(cbrt) M(erf) M(erfc) M(tgamma) M(lgamma) M(ceil) M(floor) M(trunc) M(round) M(abs)
template<typename T,unsigned R>
void functions(const std::array<size_t,R>& s){
#define M(fn) { marray<T,R> x=build<T,R>(s); const marray<T,R>& k=x; Flags g; std::string x0=arr(x,true),tt="["; std::set<long> seen; \
    for(const T& a: x){ long q=v(a,true); if(!seen.insert(q).second) continue; if(tt.size()>1) tt+=","; tt+="["+std::to_string(q)+",0,"+std::to_string(v(T(std::fn(a)),true))+"]"; } tt+="]"; \
    auto X=[&]{ return arr(x,true); }; \
    logCall(head("un",#fn,true,g),x0,x0,tt,true,[&]{ auto z=nusquids::fn(k); return arr(z,true); },X,X); \
    Flags q; q.xr=1; logCall(head("un",#fn,true,q),x0,x0,tt,true,[&]{ auto z=nusquids::fn(marray<T,R>(x)); return arr(z,true); },X,X); }
  UNARY(M)
#undef M
}
template<typename T,unsigned R> void sums(const std::array<size_t,R>& s);
template<typename T,unsigned R> struct AxisSums { static void go(marray<T,R>& x){
  auto X=[&]{ return arr(x,false); }; Flags f;
  for(unsigned d=0; d<R; d++) logCall(head("sum","axis",false,f)+",\"dim\":"+std::to_string(d),X(),X(),"[]",false,[&]{ auto z=x.sum(d); return arr(z,false); },X,X); } };
template<typename T> struct AxisSums<T,1> { static void go(marray<T,1>&){} };
template<typename T,unsigned R> void sums(const std::array<size_t,R>& s){
  marray<T,R> x=build<T,R>(s); auto X=[&]{ return arr(x,false); }; Flags f;
  logCall(head("sum","total",false,f)+",\"dim\":0",X(),X(),"[]",false,[&]{ return scal(x.sum(),false); },X,X);
  for(unsigned d=0; d<R; d++) logCall(head("sum","keep",false,f)+",\"dim\":"+std::to_string(d),X(),X(),"[]",false,[&]{ auto z=x.sum_same_rank(d); return arr(z,false); },X,X);
  AxisSums<T,R>::go(x);
}
template<unsigned R> std::array<size_t,R> shape(size_t lim=16){
  std::array<size_t,R> s; size_t n;
  do{ n=1; for(auto& e: s){ static const int c[]={1,1,2,2,3,3,4,5,0}; e=c[rnd(rnd(6)?8:9)]; n*=e; } }while(n>lim);
  return s; }
// a second shape, mostly compatible with the first
template<size_t R2,size_t R1> std::array<size_t,R2> partner(const std::array<size_t,R1>& a){
  std::array<size_t,R2> b=shape<R2>(8); int k=rnd(10);
  if(k<8) for(unsigned i=0;i<R2&&i<R1;i++){ size_t e=a[R1-1-i]; b[R2-1-i]= k<3 ? e : (e==1 ? b[R2-1-i] : (rnd(3)?e:1)); }
  return b; }
using Fn=void(*)(); struct RegA { RegA(Fn f); };
