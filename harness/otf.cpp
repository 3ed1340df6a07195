#include "common.hpp"
// C14-C16: transfer functions
static float curve(int id, float x, float g)
{
    switch (id)
    {
    case 0: return OTF::Y_to_sRGB(x);
    case 1: return OTF::sRGB_to_Y(x);
    case 2: return OTF::Y_to_BT709(x);
    case 3: return OTF::BT709_to_Y(x);
    case 4: return OTF::Y_to_ST2084(x);
    case 5: return OTF::ST2084_to_Y(x);
    case 6: return OTF::Y_to_SLog(x);
    case 7: return OTF::SLog_to_Y(x);
    case 8: return OTF::Y_to_SLog2(x);
    case 9: return OTF::SLog2_to_Y(x);
    case 10: return OTF::Y_to_SLog3(x);
    case 11: return OTF::SLog3_to_Y(x);
    case 12: return OTF::Y_to_HLG(x);
    case 13: return OTF::HLG_to_Y(x);
    case 14: return OTF::gamma(x, g);
    default: return OTF::degamma(x, g);
    }
}
static int stride()
{
    const char *s = getenv("VERIF_STRIDE");
    return s ? atoi(s) : 1;
}
static int mode()
{
    const char *s = getenv("VERIF_SWEEP");
    return s ? atoi(s) : 3;
}
OP(sweep)
{
    const int    id = (int)a[0], inv = id ^ 1, st = stride(), md = mode();
    const float  g = (float)a[1];
    const double lo = a[2], hi = a[3], *c = &a[4], tol = a[9], rt = a[10];
    float        x = (float)lo;
    while ((double)x < lo) x = nextafterf(x, INFINITY);
    double dev = 0, dx = 0, rdev = 0, rx = 0, dec = 0, ex = 0, nan = 0, n = 0;
    float  last = -INFINITY;
    while ((double)x <= hi)
    {
        const float y = curve(id, x, g);
        n++;
        if (y != y) nan++;
        if (md & 1)
        {
            const double u = (2.0 * x - lo - hi) / (hi - lo);
            const double p = c[0] + u * (c[1] + u * (c[2] + u * (c[3] + u * c[4])));
            const double d = fabs(y - p);
            if (!(d <= dev)) dev = d, dx = x;
        }
        if (md & 2)
        {
            const float  z = curve(inv, y, g);
            const double r = fabs((double)z - x);
            if (!(r <= rdev)) rdev = r, rx = x;
            if (z != z) nan++;
            if ((double)last - y > dec) dec = (double)last - y, ex = x;
            last = y;
        }
        // next float, stride by representable numbers
        union { float f; int32_t i; } q;
        q.f = x;
        if (x > 0) q.i += st;
        else q.i -= st;
        if (x < 0 && q.i >= 0) break;
        x = q.f;
        if (!(x == x)) break;
    }
    put(o, (float)(dev / tol));
    put(o, (float)(rdev / rt));
    put(o, (float)(dec / tol));
    put(o, (float)nan);
    o.push_back(dx);
    o.push_back(rx);
    o.push_back(ex);
    o.push_back(n);
}
// single points, for clamps, joints and end points
OP(point) { put(o, curve((int)a[0], (float)a[2], (float)a[1])); }
OP(trip) { put(o, curve((int)a[0] ^ 1, curve((int)a[0], (float)a[2], (float)a[1]), (float)a[1])); }
// C16: whole triples; a = dir, type, g, triple
OP(conv)
{
    const OTF::TYPE t[] = {OTF::LINEAR, OTF::GAMMA, OTF::SRGB, OTF::BT709, OTF::ST2084, OTF::SLOG, OTF::SLOG2, OTF::SLOG3, OTF::HLG};
    if (a[0] == 0) put(o, OTF::toScreen(t[(int)a[1]], tri(a, 3), (float)a[2]));
    else put(o, OTF::toScene(t[(int)a[1]], tri(a, 3), (float)a[2]));
}
OP(conv_default)
{
    const OTF::TYPE t[] = {OTF::LINEAR, OTF::GAMMA, OTF::SRGB, OTF::BT709, OTF::ST2084, OTF::SLOG, OTF::SLOG2, OTF::SLOG3, OTF::HLG};
    if (a[0] == 0) put(o, OTF::toScreen(t[(int)a[1]], tri(a, 2)));
    else put(o, OTF::toScene(t[(int)a[1]], tri(a, 2)));
}
