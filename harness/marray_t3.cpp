#include "marray_core.h"
// tracked elements, logging allocator without propagation, every rank
using EN=Elem<true>; using EC=Elem<false>;
REG("nm1",EN,1,LAlloc<EN,false,false,false,false>) REG("nm2",EN,2,LAlloc<EN,false,false,false,false>) REG("nm3",EN,3,LAlloc<EN,false,false,false,false>)
