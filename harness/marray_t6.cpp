#include "marray_core.h"
using EN=Elem<true>; using EC=Elem<false>;
REG("p110",EN,2,LAlloc<EN,true,true,false,false>) REG("p101",EN,1,LAlloc<EN,true,false,true,true>) REG("p011",EC,3,LAlloc<EC,false,true,true,false>) REG("p111",EC,2,LAlloc<EC,true,true,true,true>)
