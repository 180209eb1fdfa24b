#define VH_NO_MAIN 1
#include "c02_lifetime.h"
VH_GROUP("nothrow-move",NOPS*15*6,NOPS*15*60){ switch((c.idx/(NOPS*5))%3){case 0:variants<NoThrowMove,1>(c);break;case 1:variants<NoThrowMove,2>(c);break;default:variants<NoThrowMove,3>(c);} }
