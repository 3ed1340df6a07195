#include "common.hpp"
// C10
OP(to_lab) { both(o, Tristimulus::toCIELAB(tri(a, 0), tri(a, 3)), tri(a, 0).toCIELAB(tri(a, 3))); }
OP(to_lab_d50) { put(o, tri(a, 0).toCIELAB()); }
OP(from_lab) { both(o, Tristimulus::fromCIELAB(tri(a, 0), tri(a, 3)), tri(a, 0).fromCIELAB(tri(a, 3))); }
OP(from_lab_d50) { put(o, tri(a, 0).fromCIELAB()); }
OP(lab_round) { put(o, tri(a, 0).toCIELAB(tri(a, 3)).fromCIELAB(tri(a, 3))); }
// C11
static void hsv(Out &o, const Tristimulus &h)
{
    put(o, h);
    put(o, (h[0] >= 0.f && h[0] <= 360.f) ? 1.f : 0.f);
}
OP(to_hsv)
{
    hsv(o, Tristimulus::toHSV(tri(a, 0)));
    hsv(o, tri(a, 0).toHSV());
}
OP(to_hsv_atan)
{
    hsv(o, Tristimulus::toHSV_atan(tri(a, 0)));
    hsv(o, tri(a, 0).toHSV_atan());
}
OP(from_hsv) { both(o, Tristimulus::fromHSV(tri(a, 0)), tri(a, 0).fromHSV()); }
OP(hsv_round) { put(o, tri(a, 0).toHSV().fromHSV()); }
