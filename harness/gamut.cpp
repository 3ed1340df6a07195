#include "common.hpp"
// C17-C20
static Gamut build(const In &a, int k)
{
    return Gamut("g", (float)a[k], (float)a[k + 1], (float)a[k + 2], (float)a[k + 3], (float)a[k + 4], (float)a[k + 5], (float)a[k + 6], (float)a[k + 7]);
}
static void describe(Out &o, const Gamut &g)
{
    put(o, g.toXYZ());
    put(o, g.fromXYZ());
    put(o, g.primaryRed());
    put(o, g.primaryGreen());
    put(o, g.primaryBlue());
    put(o, g.primaryWhite());
    put(o, g.toXYZ(Tristimulus(1.f, 1.f, 1.f)));
}
OP(gamut) { describe(o, build(a, 0)); }
OP(gamut_matrix) { describe(o, Gamut("m", mat(a, 0))); }
OP(gamut_promise)
{
    const Gamut g = build(a, 0);
    for (int i = 0; i < 3; i++)
    {
        const Tristimulus x = g.toXYZ(Tristimulus(i == 0, i == 1, i == 2));
        const double      s = (double)x[0] + x[1] + x[2];
        o.push_back(x[0] / s);
        o.push_back(x[1] / s);
    }
    put(o, g.toXYZ(Tristimulus(1.f, 1.f, 1.f)));
    put(o, g.fromXYZ().mul(g.toXYZ()));
}
OP(gamut_color)
{
    const Gamut g = build(a, 0);
    put(o, g.toXYZ(tri(a, 8)));
    put(o, g.fromXYZ(tri(a, 8)));
    put(o, g.fromXYZ(g.toXYZ(tri(a, 8))));
    put(o, g.toXYZ(g.fromXYZ(tri(a, 8))));
}
static const Gamut &named(int i)
{
    static const Gamut *t[] = {&AdobeRGB, &Rec709, &Rec2020, &DCI_P3, &S_Gamut, &S_Gamut3_Cine, &ACEScg, &ACES2065, &LMS, &XYZ};
    return *t[i];
}
OP(named_gamut) { describe(o, named((int)a[0])); }
OP(named_matrix)
{
    put(o, named((int)a[0]).toXYZ());
    put(o, named((int)a[0]).fromXYZ());
}
OP(illuminant)
{
    const Tristimulus t[] = {Illuminant_A, Illuminant_B, Illuminant_C, Illuminant_D50, Illuminant_D55, Illuminant_D60,
        Illuminant_D65, Illuminant_D75, Illuminant_E, Illuminant_F2, Illuminant_F7, Illuminant_F11};
    put(o, t[(int)a[0]]);
}
// gamuts by index, or (index 10) built from primaries, or (index 11) from a matrix
static Gamut pick(const In &a, int which, int at)
{
    if (which < 10) return named(which);
    if (which == 10) return build(a, at);
    float f[8];
    for (int i = 0; i < 8; i++) f[i] = (float)a[at + i];
    return Gamut("m", Matrix3(f[6], f[0], f[1], f[2], f[7], f[3], f[4], f[5], 1.f));
}
OP(convert)
{
    const Gamut s = pick(a, (int)a[0], 2), d = pick(a, (int)a[1], 10);
    put(o, GamutConvert(s, d));
}
OP(convert_laws)
{
    const Gamut s = pick(a, (int)a[0], 3), m = pick(a, (int)a[1], 11), d = pick(a, (int)a[2], 19);
    put(o, GamutConvert(m, d).mul(GamutConvert(s, m)));
    put(o, GamutConvert(s, d));
    put(o, GamutConvert(s, s));
    put(o, GamutConvert(d, s).mul(GamutConvert(s, d)));
    put(o, GamutConvert(s, XYZ));
    put(o, GamutConvert(XYZ, d));
}
OP(convert_color)
{
    const Gamut s = pick(a, (int)a[0], 5), d = pick(a, (int)a[1], 13);
    put(o, tri(a, 2).apply(GamutConvert(s, d)));
    put(o, d.fromXYZ(s.toXYZ(tri(a, 2))));
}
OP(bradford) { put(o, Bradford(tri(a, 0), tri(a, 3))); }
OP(bradford_laws)
{
    const Tristimulus x = tri(a, 0), y = tri(a, 3), z = tri(a, 6);
    put(o, x.apply(Bradford(x, y)));
    put(o, Bradford(x, x));
    put(o, Bradford(y, z).mul(Bradford(x, y)));
    put(o, Bradford(y, x).mul(Bradford(x, y)));
}
OP(bradford_cones)
{
    const Tristimulus x = tri(a, 0), y = tri(a, 3), c = tri(a, 6);
    put(o, LMS.fromXYZ(c.apply(Bradford(x, y))));
}
