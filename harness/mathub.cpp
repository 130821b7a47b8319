#include "vc.h"
#include <rpp/base.h>
using namespace rpp;
extern "C" i32 i32_pow(i32 a, i32 b) { return Math::pow(a, b); }
extern "C" i64 i64_pow(i64 a, i64 b) { return Math::pow(a, b); }
