#include "arith_core.h"
static void go(){
  using std::false_type; 
#define AA(T1,R1,T2,R2,isnum) { auto s=shape<R1>(); arrayArray<T1,R1,T2,R2>(s,partner<R2>(s),isnum()); }
#define AP(T1,R1,T2,R2) { auto s=shape<R1>(); apply<T1,R1,T2,R2>(s,partner<R2>(s)); }
  AA(double,1,double,1,false_type) AA(double,2,double,2,false_type) AA(double,3,double,3,false_type) AA(double,3,double,1,false_type) AA(double,1,double,2,false_type)
  AA(int,2,int,2,false_type) AA(int,1,int,3,false_type) AA(int,3,int,2,false_type)
}
static RegA r(go);
