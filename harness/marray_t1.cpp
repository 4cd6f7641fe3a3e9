#include "marray_core.h"
// plain element types, library allocators
REG("int1",int,1,std::allocator<int>) REG("int2",int,2,std::allocator<int>) REG("int3",int,3,std::allocator<int>) REG("int4",int,4,std::allocator<int>)
