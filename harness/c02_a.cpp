#include "c02_lifetime.h"
void* operator new(size_t n){ if(armed) event(0); void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return ::operator new(n); }
void operator delete(void* p) noexcept{ free(p); } void operator delete[](void* p) noexcept{ free(p); }
void operator delete(void* p,size_t) noexcept{ free(p); } void operator delete[](void* p,size_t) noexcept{ free(p); }
VH_GROUP("copy-only",NOPS*15*6,NOPS*15*60){ switch((c.idx/(NOPS*5))%3){case 0:variants<CopyOnly,1>(c);break;case 1:variants<CopyOnly,2>(c);break;default:variants<CopyOnly,3>(c);} }
