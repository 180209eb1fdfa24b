#define VH_NO_MAIN 1
#include "c02_lifetime.h"
VH_GROUP("throwing-move",NOPS*15*4,NOPS*15*30){ switch((c.idx/(NOPS*5))%3){case 0:variants<ThrowMove,1>(c);break;case 1:variants<ThrowMove,2>(c);break;default:variants<ThrowMove,3>(c);} }
