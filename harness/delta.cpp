#include "common.hpp"
template <class F> static void sym(Out &o, const In &a, F f)
{
    const Tristimulus x = tri(a, 0), y = tri(a, 3);
    put(o, f(x, y));
    put(o, f(y, x));
    put(o, f(x, x));
    put(o, f(y, y));
}
OP(delta_uv) { sym(o, a, [](const Tristimulus &x, const Tristimulus &y) { return Delta::UV(x, y); }); }
OP(delta_e76) { sym(o, a, [](const Tristimulus &x, const Tristimulus &y) { return Delta::E76(x, y); }); }
OP(delta_ictcp) { sym(o, a, [](const Tristimulus &x, const Tristimulus &y) { return Delta::ICtCp(x, y); }); }
OP(delta_e00) { sym(o, a, [](const Tristimulus &x, const Tristimulus &y) { return Delta::E00(x, y); }); }
OP(triangle)
{
    const Tristimulus x = tri(a, 0), y = tri(a, 3), z = tri(a, 6);
    const double      e = (double)Delta::E76(x, z) - Delta::E76(x, y) - Delta::E76(y, z);
    const double      u = (double)Delta::UV(x, z) - Delta::UV(x, y) - Delta::UV(y, z);
    o.push_back(e > 0 ? e : 0);
    o.push_back(u > 0 ? u : 0);
}
OP(e00) { both(o, Delta::E00(tri(a, 0), tri(a, 3)), Delta::E00(tri(a, 0), tri(a, 3), 1.f, 1.f, 1.f)); }
OP(e00_k) { put(o, Delta::E00(tri(a, 0), tri(a, 3), (float)a[6], (float)a[7], (float)a[8])); }
