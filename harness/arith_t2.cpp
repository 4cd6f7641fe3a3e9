#include "arith_core.h"
static void go(){
  using std::false_type; using std::true_type;
#define AA(T1,R1,T2,R2,isnum) { auto s=shape<R1>(); arrayArray<T1,R1,T2,R2>(s,partner<R2>(s),isnum()); }
#define AP(T1,R1,T2,R2) { auto s=shape<R1>(); apply<T1,R1,T2,R2>(s,partner<R2>(s)); }
  AA(int,2,double,2,false_type) AA(double,2,int,1,false_type) AA(float,2,double,3,false_type) AA(float,2,float,2,false_type) AA(long,1,int,1,false_type) AA(long,3,long,3,false_type)
  AA(Num,2,Num,2,true_type) AA(Num,3,Num,3,true_type) AA(Num,1,Num,2,true_type)
  AP(int,1,int,1) AP(int,1,long,2) AP(long,2,int,1) AP(int,2,int,2) AP(Num,2,int,3) AP(int,3,Num,3) AP(int,4,int,2) AP(int,2,int,4) AP(int,3,int,1)
}
static RegA r(go);
