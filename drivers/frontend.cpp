#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
#include "frontend_ops.h"
#define ALL(W) template struct drv::D<true, W, true, true, false>; template struct drv::D<false, W, true, true, false>;
ALL(1) ALL(2) ALL(3) ALL(4) ALL(5) ALL(7) ALL(8) ALL(16) ALL(31) ALL(32) ALL(33) ALL(63) ALL(64)
#define MIX(S, W, B) template struct drv::D<S, W, true, false, B>; template struct drv::D<S, W, false, true, B>; template struct drv::D<S, W, false, false, B>;
MIX(true, 8, false) MIX(false, 8, false) MIX(true, 64, false) MIX(false, 64, false) MIX(true, 4, true) MIX(false, 4, true)
#define BAT(W) template struct drv::D<true, W, true, true, true>; template struct drv::D<false, W, true, true, true>;
BAT(1) BAT(2) BAT(4) BAT(8) BAT(64)
template struct drv::B<true, true, false>; template struct drv::B<true, false, false>; template struct drv::B<false, true, false>; template struct drv::B<false, false, false>;
template struct drv::B<true, true, true>; template struct drv::B<true, false, true>; template struct drv::B<false, true, true>; template struct drv::B<false, false, true>;
