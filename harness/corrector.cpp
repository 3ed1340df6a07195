#include "common.hpp"
#include <cmath>
// C29
typedef std::vector<Tristimulus> Tris;
static Tris tris(const In &a, int k, int n)
{
    Tris t;
    for (int i = 0; i < n; i++) t.push_back(tri(a, k + 3 * i));
    return t;
}
static float val(const In &a, int k, long i)
{
    const long A = (long)a[k], B = (long)a[k + 1], C = (long)a[k + 2], M = (long)a[k + 3], S = (long)a[k + 4];
    return (float)ldexp((double)((A * i * i + B * i + C) % M), (int)-S);
}
static Spectrum formula(const In &a, int k)
{
    Spectrum::spectrum s;
    for (long i = 0; i < 400; i++) s[i] = val(a, k, i);
    return Spectrum(s);
}
static const Observer &named(int i) { return i == 0 ? CIE1931 : i == 1 ? CIE31JV : CIE2012; }
OP(corr)
{
    const int  n = (int)a[0];
    const Tris p = tris(a, 1, n), t = tris(a, 1 + 3 * n, n);
    const Tris p0 = p, t0 = t;
    put(o, Corrector::solve(p, t));
    kept(p, p0);
    kept(t, t0);
    // the best matrix does not depend on the order, nor on repeating the whole chart
    Tris q(p.rbegin(), p.rend()), u(t.rbegin(), t.rend());
    put(o, Corrector::solve(q, u));
    q.insert(q.end(), p.begin(), p.end());
    u.insert(u.end(), t.begin(), t.end());
    put(o, Corrector::solve(q, u));
    // a black patch that should stay black adds nothing
    Tris v(p), w(t);
    v.push_back(Tristimulus(0.f, 0.f, 0.f));
    w.push_back(Tristimulus(0.f, 0.f, 0.f));
    put(o, Corrector::solve(v, w));
}
OP(corr_many)
{
    Tris p, t;
    for (int i = 0; i < (int)a[0]; i++)
    {
        const float x = val(a, 1, i), y = val(a, 6, i), z = val(a, 11, i), k = (float)ldexp(1.0, (int)-a[31]);
        p.push_back(a[31] == 0 ? Tristimulus(x, y, z) : Tristimulus(x, x + y * k, x + z * k));
        t.push_back(Tristimulus(val(a, 16, i), val(a, 21, i), val(a, 26, i)));
    }
    put(o, Corrector::solve(p, t));
}
static uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
// charts with the three primaries (condition number below 20), integer matrices
OP(corr_family)
{
    const int n = (int)a[0], kind = (int)a[1], count = (int)a[3];
    uint64_t  z = (uint64_t)a[2] << 32;
    double    worst = 0;
    for (int c = 0; c < count; c++)
    {
        float M[9];
        for (int k = 0; k < 9; k++) M[k] = (float)((int)(mix(z++) >> 20) % 5);
        Tris p, t;
        for (int i = 0; i < n; i++)
        {
            float x[3];
            for (int j = 0; j < 3; j++)
            {
                const uint64_t h = mix(z++) >> 20;
                x[j] = i < 3 ? (i == j ? 1.f : 0.f) : kind == 0 ? h % 256 / 255.f : kind == 1 ? h % 2 : kind == 2 ? (h % 2 ? 0.f : h / 2 % 256 / 255.f) : (float)(h % 3) - 1.f;
            }
            p.push_back(Tristimulus(x[0], x[1], x[2]));
            t.push_back(Tristimulus(M[0] * x[0] + M[1] * x[1] + M[2] * x[2], M[3] * x[0] + M[4] * x[1] + M[5] * x[2], M[6] * x[0] + M[7] * x[1] + M[8] * x[2]));
        }
        const Matrix3 R = Corrector::solve(p, t);
        for (int k = 0; k < 9; k++)
        {
            const double d = fabs((double)R[k] - M[k]);
            if (!(d <= worst)) worst = d;
        }
    }
    o.push_back(worst);
    o.push_back(count);
}
static void put(Out &o, const Tris &t)
{
    for (auto &x : t) put(o, x);
}
OP(ref_d65)
{
    put(o, Macbeth::reference(CIE_D65, named((int)a[0])));
    if (a[0] == 0) put(o, Macbeth::reference(CIE_D65));
}
OP(ref)
{
    put(o, Macbeth::reference(formula(a, 1), named((int)a[0])));
    if (a[0] == 0) put(o, Macbeth::reference(formula(a, 1)));
}
static void group(Out &o, const Matrix3 &m, const Gamut &g, const Tris &p)
{
    put(o, m);
    Tris x, y;
    for (auto &t : p) x.push_back(g.toXYZ(t));
    for (auto &t : x) y.push_back(g.fromXYZ(t));
    put(o, x);
    put(o, y);
    o.push_back(std::string("chart") == g.name());
}
OP(corr_default)
{
    Tris p = tris(a, 0, 24);
    const Tris before = p;
    Corrector::solve(p);
    kept(p, before);
    Corrector::makeGamut("chart", p);
    kept(p, before);
    group(o, Corrector::solve(p), Corrector::makeGamut("chart", p), p);
    group(o, Corrector::solve(p, CIE_D65), Corrector::makeGamut("chart", p, CIE_D65), p);
    group(o, Corrector::solve(p, CIE_D65, CIE1931), Corrector::makeGamut("chart", p, CIE_D65, CIE1931), p);
    group(o, Corrector::solve(p, Macbeth::reference(CIE_D65, CIE1931)), Corrector::makeGamut("chart", p), p);
}
OP(corr_d65)
{
    const Observer &ob = named((int)a[0]);
    Tris            p = tris(a, 1, 24);
    group(o, Corrector::solve(p, CIE_D65, ob), Corrector::makeGamut("chart", p, CIE_D65, ob), p);
    group(o, Corrector::solve(p, Macbeth::reference(CIE_D65, ob)), Corrector::makeGamut("chart", p, Spectrum(CIE_D65), ob), p);
}
OP(corr_light)
{
    const Spectrum  l = formula(a, 1);
    const Observer &ob = named((int)a[0]);
    Tris            p = tris(a, 6, 24);
    const Tris      before = p;
    group(o, Corrector::solve(p, l, ob), Corrector::makeGamut("chart", p, l, ob), p);
    if (a[0] == 0) group(o, Corrector::solve(p, l), Corrector::makeGamut("chart", p, l), p);
    kept(p, before);
}
