#include "marray_core.h"
using EN=Elem<true>; using EC=Elem<false>;
REG("cp1",EC,1,LAlloc<EC,false,false,false,false>) REG("cp2",EC,2,LAlloc<EC,false,false,false,false>) REG("cp3",EC,3,LAlloc<EC,false,false,false,false>) REG("nm4",EN,4,LAlloc<EN,true,true,true,false>)
