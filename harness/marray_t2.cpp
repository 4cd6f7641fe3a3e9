#include "marray_core.h"
REG("dbl2",double,2,aligned_allocator<double>) REG("dbl3",double,3,aligned_allocator<double>) REG("dbl1",double,1,aligned_allocator<double>)
REG("str1",std::string,1,std::allocator<std::string>) REG("str2",std::string,2,std::allocator<std::string>) REG("str3",std::string,3,std::allocator<std::string>)
