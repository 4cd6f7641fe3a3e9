#include "arith_core.h"
static void go(){
  scalarForms<int,1,int>(shape<1>()); scalarForms<int,3,int>(shape<3>()); scalarForms<double,1,double>(shape<1>()); scalarForms<double,2,double>(shape<2>());
  scalarForms<double,2,int>(shape<2>()); scalarForms<Num,2,Num>(shape<2>()); scalarForms<long,2,int>(shape<2>()); scalarForms<float,2,float>(shape<2>());
  compound<int,1>(shape<1>()); compound<int,3>(shape<3>()); compound<double,2>(shape<2>()); compound<Num,2>(shape<2>()); compound<double,4>(shape<4>());
  functions<double,2>(shape<2>()); functions<double,1>(shape<1>()); functions<float,3>(shape<3>());
  sums<int,1>(shape<1>()); sums<int,2>(shape<2>(30)); sums<int,3>(shape<3>(40)); sums<int,4>(shape<4>(40)); sums<long,3>(shape<3>(30)); sums<Num,2>(shape<2>()); sums<Num,3>(shape<3>());
}
static RegA r(go);
