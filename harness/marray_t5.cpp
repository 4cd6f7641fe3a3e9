#include "marray_core.h"
using EN=Elem<true>; using EC=Elem<false>;
REG("p100",EC,2,LAlloc<EC,true,false,false,false>) REG("p010",EN,2,LAlloc<EN,false,true,false,true>) REG("p001",EC,2,LAlloc<EC,false,false,true,true>)
