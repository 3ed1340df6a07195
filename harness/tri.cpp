#include "common.hpp"
// C08: colour triples
OP(tri_add)
{
    both(o, Tristimulus::add(tri(a, 0), tri(a, 3)), Tristimulus(tri(a, 0).add(tri(a, 3))));
    put(o, Tristimulus(tri(a, 0) + tri(a, 3)));
}
OP(tri_mul)
{
    both(o, Tristimulus::mul(tri(a, 0), tri(a, 3)), Tristimulus(tri(a, 0).mul(tri(a, 3))));
    put(o, Tristimulus(tri(a, 0) * tri(a, 3)));
}
OP(tri_scale)
{
    const float s = (float)a[3];
    both(o, Tristimulus::scale(tri(a, 0), s), tri(a, 0).scale(s));
    put(o, tri(a, 0) * s);
}
OP(tri_div) { put(o, tri(a, 0) / (float)a[3]); }
OP(tri_dot) { both(o, Tristimulus::dot(tri(a, 0), tri(a, 3)), tri(a, 0).dot(tri(a, 3))); }
OP(tri_minmax)
{
    put(o, Tristimulus::min(tri(a, 0), tri(a, 3)));
    put(o, Tristimulus::max(tri(a, 0), tri(a, 3)));
    put(o, tri(a, 0).min(tri(a, 3)));
    put(o, tri(a, 0).max(tri(a, 3)));
}
OP(tri_minmax3) { both(o, tri(a, 0).min3(), tri(a, 0).max3()); }
OP(tri_clip)
{
    const float       l = (float)a[3], h = (float)a[4];
    const Tristimulus c = tri(a, 0).clip(l, h);
    both(o, c, c.clip(l, h));
    const Tristimulus d = Tristimulus::clip(tri(a, 0), l, h);
    both(o, d, Tristimulus::clip(d, l, h));
}
OP(tri_sign)
{
    put(o, tri(a, 0).positive());
    put(o, tri(a, 0).hasNegative() ? 1.f : 0.f);
    put(o, Tristimulus::positive(tri(a, 0)));
    put(o, Tristimulus::hasNegative(tri(a, 0)) ? 1.f : 0.f);
}
OP(tri_get)
{
    const Tristimulus t = tri(a, 0);
    put(o, t);
    put(o, t.vec3());
    put(o, Vector3(t.a(), t.b(), t.c()));
    for (auto x : Tristimulus(vec(a, 0))) put(o, x);
    put(o, Tristimulus());
    put(o, Tristimulus((float)a[0]));
    put(o, (float)t.size());
}
// C09: chromaticity
OP(to_yxy)
{
    both(o, Tristimulus::toYxy(tri(a, 0)), tri(a, 0).toYxy());
    put(o, Tristimulus::toYxy((float)a[0], (float)a[1], (float)a[2]));
}
OP(to_yuv)
{
    both(o, Tristimulus::toYuv(tri(a, 0)), tri(a, 0).toYuv());
    put(o, Tristimulus::toYuv((float)a[0], (float)a[1], (float)a[2]));
}
OP(from_yxy)
{
    both(o, Tristimulus::fromYxy(tri(a, 0)), tri(a, 0).fromYxy());
    put(o, Tristimulus::fromYxy((float)a[0], (float)a[1], (float)a[2]));
}
OP(from_yuv)
{
    both(o, Tristimulus::fromYuv(tri(a, 0)), tri(a, 0).fromYuv());
    put(o, Tristimulus::fromYuv((float)a[0], (float)a[1], (float)a[2]));
}
OP(yxy_yuv)
{
    const Tristimulus u = Tristimulus::YxyToYuv(tri(a, 0));
    both(o, u, Tristimulus::YuvToYxy(u));
}
OP(xyz_circle)
{
    const Tristimulus t = tri(a, 0);
    both(o, t.toYxy().fromYxy(), t.toYuv().fromYuv());
}
