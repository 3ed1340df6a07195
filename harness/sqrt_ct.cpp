#include "common.hpp"
#include <cmath>
// C32 at compile time: ct_list.inc holds the inputs of the specification's calls.
static constexpr float IN[]  = {
#include "ct_list.inc"
};
#define X(v) util::sqrtf(v),
static constexpr float OUT[] = {
#include "ct_calls.inc"
};
#undef X
static float (*volatile root)(float) = util::sqrtf;
static constexpr float special[] = {util::sqrtf(0.f), util::sqrtf(-0.f), util::sqrtf(-1.f), util::sqrtf(-std::numeric_limits<float>::max()),
    util::sqrtf(-std::numeric_limits<float>::denorm_min()), util::sqrtf(std::numeric_limits<float>::infinity()),
    util::sqrtf(-std::numeric_limits<float>::infinity()), util::sqrtf(std::numeric_limits<float>::quiet_NaN())};
// index of the value; the result at compile time, and the result at run time if it has other bits
static int at;
static void one(float x, Out &o)
{
    const int i = at++;
    if (IN[i] != x) exit(66);
    put(o, OUT[i]);
    const float r = root(x);
    if (memcmp(&r, &OUT[i], sizeof r)) o.push_back(NAN);
}
OP(sqrt) { one((float)a[0], o); }
OP(sqrt_end) { one(ldexpf((float)a[0], (int)a[1]), o); }
OP(sqrt_special)
{
    for (float f : special) put(o, f);
}
