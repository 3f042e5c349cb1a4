#include "api.hpp"
#ifndef DRV_F
#define DRV_F double
#define DRV_G float
#endif
#ifdef HOMOG2D_ENABLE_PRTP
void drv_prtp();
#endif
template void drv::all<DRV_F,DRV_G>();
