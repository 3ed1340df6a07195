#include "common.hpp"
#include <cmath>
// C32.  Calls go through a volatile pointer so that they happen at run time.
static float (*volatile root)(float) = util::sqrtf;
OP(sqrt_sweep)
{
    const double lo = a[0], hi = a[1], *c = &a[2], tol = a[7];
    const char  *s = getenv("VERIF_STRIDE");
    const int    st = s ? atoi(s) : 1;
    double       dev = 0, dx = 0, nan = 0, n = 0;
    for (int e = -75; e <= 63; e++)
    {
        // lo, hi are multiples of powers of two: exact
        float x = (float)ldexp(lo, 2 * e);
        while ((double)x < ldexp(lo, 2 * e)) x = nextafterf(x, INFINITY);
        const double top = ldexp(hi, 2 * e);
        while ((double)x <= top && x < INFINITY)
        {
            const float y = root(x);
            n++;
            if (x > 0)
            {
                const double u = (2.0 * ldexp((double)x, -2 * e) - lo - hi) / (hi - lo);
                const double p = c[0] + u * (c[1] + u * (c[2] + u * (c[3] + u * c[4])));
                const double d = fabs(ldexp((double)y, -e) - p) / p;
                if (y != y) nan++;
                if (!(d <= dev)) dev = d, dx = x;
            }
            union { float f; int32_t i; } q;
            q.f = x;
            q.i += st;
            if ((double)q.f > top || !(q.f < INFINITY))     // always visit the last one
            {
                const float last = (float)top < INFINITY ? ((double)(float)top <= top ? (float)top : nextafterf((float)top, 0)) : std::numeric_limits<float>::max();
                if (x < last) q.f = last;
            }
            x = q.f;
        }
    }
    put(o, (float)(dev / tol));
    put(o, (float)nan);
    o.push_back(dx);
    o.push_back(n);
}
OP(sqrt) { put(o, root((float)a[0])); }
OP(sqrt_end) { put(o, root(ldexpf((float)a[0], (int)a[1]))); }
OP(sqrt_special)
{
    const float in[] = {0.f, -0.f, -1.f, -std::numeric_limits<float>::max(), -std::numeric_limits<float>::denorm_min(), INFINITY, -INFINITY, NAN};
    for (float f : in) put(o, root(f));
}
