#include "common.hpp"
#include <cmath>
#include <memory>
// C24-C27, C31
static float val(const In &a, int k, int i)
{
    const long A = (long)a[k], B = (long)a[k + 1], C = (long)a[k + 2], M = (long)a[k + 3], S = (long)a[k + 4];
    const long r = (A * i * i + B * i + C) % M, g = S / 64 % 4;
    return (float)ldexp((double)(g == 1 ? r - M / 2 : g == 2 ? -r : r), (int)(8 * (S / 256) - S % 64));
}
static Spectrum spec(const In &a, int k)
{
    Spectrum::spectrum s;
    for (int i = 0; i < 400; i++) s[i] = val(a, k, i);
    return Spectrum(s);
}
static std::unique_ptr<float[]> heap(const In &a, size_t k, int &n)
{
    n = (int)(a.size() - k);
    std::unique_ptr<float[]> p(new float[n]);
    for (int i = 0; i < n; i++) p[i] = (float)a[k + i];
    return p;
}
OP(fetch)
{
    int  n;
    auto p = heap(a, 3, n);
    put(o, Spectrum::fetch(p.get(), n, (float)a[0], (float)a[1], (float)a[2]));
}
OP(fetch_long)
{
    const int                n = (int)a[3];
    std::unique_ptr<float[]> p(new float[n]);
    for (int i = 0; i < n; i++) p[i] = val(a, 4, i);
    put(o, Spectrum::fetch(p.get(), n, (float)a[0], (float)a[1], (float)a[2]));
}
OP(sp_fetch)
{
    std::unique_ptr<Spectrum> s(new Spectrum(spec(a, 0)));
    put(o, s->fetch((float)a[5]));
}
OP(fetch_inf)
{
    std::unique_ptr<Spectrum> s(new Spectrum(spec(a, 0)));
    put(o, s->fetch(INFINITY));
    put(o, s->fetch(-INFINITY));
}
OP(resample)
{
    int  n;
    auto p = heap(a, 2, n);
    put(o, Spectrum(p.get(), n, (float)a[0], (float)a[1]));
}
OP(resample_long)
{
    const int                n = (int)a[2];
    std::unique_ptr<float[]> p(new float[n]);
    for (int i = 0; i < n; i++) p[i] = val(a, 3, i);
    put(o, Spectrum(p.get(), n, (float)a[0], (float)a[1]));
}
// straight lines: a[1] numbers of samples from a[0] on
OP(resample_lines)
{
    double e = 0, count = 0;
    for (int n = (int)a[0]; n < (int)a[0] + (int)a[1]; n++)
    {
        std::unique_ptr<float[]> p(new float[n]);
        for (int i = 0; i < n; i++) p[i] = (float)i;
        for (float lo : {380.f, 360.f, 400.f, 300.f, 390.f, 350.f, 340.f, 200.f, 0.f, 780.f, 780.5f})
            for (float d : {399.f, 400.f, 401.f, 380.f, 300.f, 320.f, 350.f, 330.f, 470.f, 450.f, 1.f * n, n - 1.f, 2.f * n - 2, 5.f * n - 5, 10.f * n - 10, n / 2.f})
            {
                const float hi = lo + d;
                if (!(hi > lo)) continue;
                const Spectrum s(p.get(), n, lo, hi);
                for (int i = 0; i < 400; i++)
                {
                    const double t = 380.0 + i, pos = t <= lo ? 0 : t >= hi ? n - 1 : (t - lo) / ((double)hi - lo) * (n - 1);
                    const double tol = t <= lo || t >= hi ? 1e-9 : (16.0 * hi * (n - 1) / ((double)hi - lo) + 16 * pos + 12) / (1 << 24);
                    const double v = fabs(s[i] - pos) / tol;
                    if (!(v <= e)) e = v;
                    count++;
                }
            }
    }
    o.push_back(e);
    o.push_back(count);
}
OP(resample_default)
{
    std::unique_ptr<float[]> p(new float[400]);
    for (int i = 0; i < 400; i++) p[i] = val(a, 0, i);
    put(o, Spectrum(p.get()));
    put(o, Spectrum(p.get(), 400));
}
OP(spec_add) { both(o, Spectrum::add(spec(a, 0), spec(a, 5)), spec(a, 0) + spec(a, 5)); }
OP(spec_mul) { both(o, Spectrum::mul(spec(a, 0), spec(a, 5)), spec(a, 0) * spec(a, 5)); }
OP(spec_scale) { both(o, Spectrum::mul(spec(a, 0), (float)a[5]), spec(a, 0) * (float)a[5]); }
// by a power of two beyond the usual range; the result is scaled back
OP(spec_far)
{
    const float    f = ldexpf(1.f, (int)a[5]);
    const Spectrum s = Spectrum::mul(spec(a, 0), f), t = spec(a, 0) * f;
    for (int i = 0; i < 400; i++) o.push_back(ldexp((double)s[i], -(int)a[5]));
    for (int i = 0; i < 400; i++) o.push_back(ldexp((double)t[i], -(int)a[5]));
}
OP(spec_E) { put(o, Spectrum::E((float)a[0])); }
OP(spec_E_default) { put(o, Spectrum::E()); }
OP(spec_sums)
{
    const Spectrum x = spec(a, 0), y = spec(a, 5), z = spec(a, 10);
    put(o, x.sum());
    put(o, x.dot(y));
    put(o, Spectrum::dot3(x, y, z));
    put(o, Spectrum::sum(x));
    put(o, Spectrum::dot(x, y));
    put(o, Spectrum::dot3(y, x, z));
}
OP(spec_spike)
{
    const int          i = (int)a[0], j = (int)a[1];
    Spectrum::spectrum p, q, r;
    for (int k = 0; k < 400; k++) p[k] = k == i, q[k] = k == j, r[k] = k + 1;
    const Spectrum x(p), y(q), z(r);
    put(o, x.sum());
    put(o, x.dot(y));
    put(o, Spectrum::dot3(x, y, x));
    put(o, x.dot(z));
    put(o, Spectrum::dot3(x, z, x));
}
OP(integrate)
{
    const Observer ob(spec(a, 0), spec(a, 5), spec(a, 10));
    put(o, ob.fromSpectrum(spec(a, 15)));
    put(o, ob.fromReflectanceAndLight(spec(a, 15), spec(a, 20)));
    // the light's role is symmetric, and equals integrating the product
    put(o, ob.fromSpectrum(spec(a, 15)));
    put(o, ob.fromSpectrum(spec(a, 15) * spec(a, 20)));
}
static const Observer &named(int i) { return i == 0 ? CIE1931 : i == 1 ? CIE31JV : CIE2012; }
OP(integrate_named)
{
    put(o, named((int)a[0]).fromSpectrum(spec(a, 1)));
    put(o, named((int)a[0]).fromReflectanceAndLight(spec(a, 1), CIE_D65));
}
// C26
OP(planck) { o.push_back(Spectrum::planck(a[0], a[1] * 1e-9)); }
OP(planck_wide) { o.push_back(ldexp(Spectrum::planck(a[0], a[1] * 1e-9), (int)a[2])); }
OP(planck_frozen)
{
    const double p = Spectrum::planck(a[0], a[1] * 1e-9);
    o.push_back(p < 0 ? -1.0 : ldexp(p, 60));
}
OP(planck_up) { o.push_back(Spectrum::planck(a[1], a[2] * 1e-9) > Spectrum::planck(a[0], a[2] * 1e-9)); }
OP(blackbody_samples)
{
    const Spectrum s   = Spectrum::blackbody((float)a[0]);
    int            bad = 0;
    for (int i = 0; i < 400; i++)
    {
        const double p = Spectrum::planck((float)a[0], (380 + i) * 1e-9);
        if (!(fabs(s[i] - p) <= 1e-6 * fabs(p) + 1e-43)) bad++;
    }
    o.push_back(bad);
}
OP(blackbody) { put(o, Spectrum::blackbody((float)a[0])); }
// C31
static void photo(Out &o, const Observer &ob, float t, float w)
{
    put(o, ob.lumensFromMonochromaticFlux(t, w));
    put(o, ob.candellasFromMonochromaticRadiance(t, w));
    put(o, ob.xyz(t));
}
OP(photo_named) { photo(o, named((int)a[0]), (float)a[1], (float)a[2]); }
OP(photo) { photo(o, Observer(spec(a, 0), spec(a, 5), spec(a, 10)), (float)a[15], (float)a[16]); }
// C27: group 1 the collection or observer, group 2 the named constant
#define CES(n) &TM_30_15::CES##n,
static const Spectrum *ces[] = {CES(01) CES(02) CES(03) CES(04) CES(05) CES(06) CES(07) CES(08) CES(09) CES(10) CES(11) CES(12) CES(13) CES(14)
        CES(15) CES(16) CES(17) CES(18) CES(19) CES(20) CES(21) CES(22) CES(23) CES(24) CES(25) CES(26) CES(27) CES(28) CES(29) CES(30) CES(31)
            CES(32) CES(33) CES(34) CES(35) CES(36) CES(37) CES(38) CES(39) CES(40) CES(41) CES(42) CES(43) CES(44) CES(45) CES(46) CES(47)
                CES(48) CES(49) CES(50) CES(51) CES(52) CES(53) CES(54) CES(55) CES(56) CES(57) CES(58) CES(59) CES(60) CES(61) CES(62)
                    CES(63) CES(64) CES(65) CES(66) CES(67) CES(68) CES(69) CES(70) CES(71) CES(72) CES(73) CES(74) CES(75) CES(76)
                        CES(77) CES(78) CES(79) CES(80) CES(81) CES(82) CES(83) CES(84) CES(85) CES(86) CES(87) CES(88) CES(89)
                            CES(90) CES(91) CES(92) CES(93) CES(94) CES(95) CES(96) CES(97) CES(98) CES(99)};
#define MB(n) &Macbeth::Macbeth##n,
static const Spectrum *mb[] = {MB(01) MB(02) MB(03) MB(04) MB(05) MB(06) MB(11) MB(12) MB(13) MB(14) MB(15) MB(16) MB(21) MB(22) MB(23) MB(24)
        MB(25) MB(26) MB(31) MB(32) MB(33) MB(34) MB(35) MB(36)};
static const Spectrum *cie[] = {&CIE1931_X, &CIE1931_Y, &CIE1931_Z, &CIE1931_JuddVos_X, &CIE1931_JuddVos_Y, &CIE1931_JuddVos_Z, &CIE2012_X, &CIE2012_Y, &CIE2012_Z, &CIE_D65};
OP(table)
{
    const int       k = (int)a[0];
    const Spectrum *x, *y;
    bool            size = true;
    if (k < 9)
    {
        const Observer &ob = named(k / 3);
        x = k % 3 == 0 ? &ob.X_ : k % 3 == 1 ? &ob.Y_ : &ob.Z_;
        y = cie[k];
    }
    else if (k == 9) x = y = &CIE_D65;
    else if (k < 109)
    {
        x = &TM_30_15::sample[k - 10];
        y = ces[k - 10];
        size = TM_30_15::sample.size() == 99;
    }
    else
    {
        x = &Macbeth::Patch[k - 109];
        y = mb[k - 109];
        size = Macbeth::Patch.size() == 24;
    }
    put(o, *x);
    o.push_back(size ? (double)x->s().size() : -1);
    put(o, *y);
    o.push_back(400);
}
