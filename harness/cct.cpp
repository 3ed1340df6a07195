#include "common.hpp"
#include <cmath>
OP(from_ct) { put(o, Tristimulus::fromCT((float)a[0], (float)a[1])); }
OP(from_ct_default) { put(o, Tristimulus::fromCT((float)a[0])); }
OP(from_planck) { put(o, Tristimulus::fromPlanckianLocus((float)a[0], (float)a[1])); }
OP(from_planck_default) { put(o, Tristimulus::fromPlanckianLocus((float)a[0])); }
static void uv(const Tristimulus &t, double *r)
{
    const double d = (double)t[0] + 15.0 * t[1] + 3.0 * t[2];
    r[0]           = 4.0 * t[0] / d;
    r[1]           = 6.0 * t[1] / d;
}
static void cct(Out &o, const Tristimulus &w, const Tristimulus &p, double duv)
{
    double a[2], b[2];
    uv(w, a);
    uv(p, b);
    put(o, w);
    o.push_back(hypot(a[0] - b[0], a[1] - b[1]));
    o.push_back(a[1] > b[1] ? 1 : a[1] < b[1] ? -1 : 0);
}
OP(from_cct) { cct(o, Tristimulus::fromCCT((float)a[0], (float)a[1], (float)a[2]), Tristimulus::fromCT((float)a[0], (float)a[2]), a[1]); }
OP(from_cct_default) { cct(o, Tristimulus::fromCCT((float)a[0], (float)a[1]), Tristimulus::fromCT((float)a[0]), a[1]); }
