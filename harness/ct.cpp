// C33: calls as constant expressions.  ct_calls.inc holds one "CT(op, inputs...)" per call of the behaviour; every call is
// evaluated by the compiler, and once more at run time on inputs the compiler does not know.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include "colorsystem.hpp"
using namespace ColorSystem;
struct A
{
    float v[32];
    constexpr float operator[](int i) const { return v[i]; }
};
struct R
{
    float v[64];
    int   n;
    constexpr R() : v{}, n(0) {}
    constexpr void put(float f) { v[n++] = f; }
    constexpr void put(const Vector3 &x) { for (int i = 0; i < 3; i++) put(x[i]); }
    constexpr void put(const Tristimulus &x) { for (int i = 0; i < 3; i++) put(x[i]); }
    constexpr void put(const Matrix3 &x) { for (int i = 0; i < 9; i++) put(x[i]); }
};
#define OP(n) static constexpr R op_##n(const A &a)
#define END return o
constexpr Matrix3     mat(const A &a, int k) { return Matrix3(a[k], a[k + 1], a[k + 2], a[k + 3], a[k + 4], a[k + 5], a[k + 6], a[k + 7], a[k + 8]); }
constexpr Vector3     vec(const A &a, int k) { return Vector3(a[k], a[k + 1], a[k + 2]); }
constexpr Tristimulus tri(const A &a, int k) { return Tristimulus(a[k], a[k + 1], a[k + 2]); }
#define ONE(n, e) OP(n) { R o; o.put(e); END; }
#define TWO(n, e, f) OP(n) { R o; o.put(e); o.put(f); END; }
ONE(mat_mul, mat(a, 0).mul(mat(a, 9)))
TWO(mat_apply, mat(a, 0).apply(vec(a, 9)), tri(a, 9).apply(mat(a, 0)))
ONE(mat_apply2, mat(a, 0).apply(mat(a, 9).apply(vec(a, 18))))
ONE(mat_det, mat(a, 0).det())
ONE(mat_detmul, mat(a, 0).mul(mat(a, 9)).det())
ONE(mat_transmul, mat(a, 9).transpose().mul(mat(a, 0).transpose()))
OP(mat_rowcol)
{
    R             o;
    const Matrix3 m = mat(a, 0);
    for (int i = 0; i < 3; i++) o.put(m.row(i));
    for (int i = 0; i < 3; i++) o.put(m.col(i));
    o.put(Matrix3::fromArray(a.v)), o.put(m), o.put((float)m.size());
    END;
}
OP(vec_get)
{
    R             o;
    const Vector3 v = vec(a, 0);
    o.put(v), o.put(v.x()), o.put(v.y()), o.put(v.z()), o.put(v), o.put((float)v.size()), o.put(Matrix3());
    END;
}
OP(tri_get)
{
    R                 o;
    const Tristimulus t = tri(a, 0);
    o.put(t), o.put(t.vec3()), o.put(t.a()), o.put(t.b()), o.put(t.c()), o.put(Tristimulus(vec(a, 0))), o.put(Tristimulus()), o.put(Tristimulus(a[0])), o.put((float)t.size());
    END;
}
ONE(mat_trans, mat(a, 0).transpose())
ONE(mat_add, mat(a, 0).add(mat(a, 9)))
ONE(mat_scale, mat(a, 0).mul(a[9]))
ONE(mat_div, mat(a, 0).div(a[9]))
ONE(mat_diag, Matrix3::diag(vec(a, 0)))
ONE(vec_dot, vec(a, 0).dot(vec(a, 3)))
OP(mat_inv)
{
    R             o;
    const Matrix3 m = mat(a, 0), i = m.invert();
    o.put(i), o.put(m.mul(i)), o.put(i.mul(m));
    END;
}
OP(mat_xtalk)
{
    R             o;
    const Matrix3 c = Matrix3::crosstalk(a[0]), i = Matrix3::crosstalkInvert(a[0]);
    o.put(c), o.put(i), o.put(c.mul(i)), o.put(i.mul(c));
    END;
}
TWO(tri_add, tri(a, 0).add(tri(a, 3)), tri(a, 0) + tri(a, 3))
TWO(tri_mul, tri(a, 0).mul(tri(a, 3)), tri(a, 0) * tri(a, 3))
ONE(tri_scale, tri(a, 0) * a[3])
ONE(tri_div, tri(a, 0) / a[3])
ONE(tri_dot, tri(a, 0).dot(tri(a, 3)))
TWO(tri_minmax, tri(a, 0).min(tri(a, 3)), tri(a, 0).max(tri(a, 3)))
TWO(tri_minmax3, tri(a, 0).min3(), tri(a, 0).max3())
TWO(tri_clip, tri(a, 0).clip(a[3], a[4]), tri(a, 0).clip(a[3], a[4]))
TWO(tri_sign, tri(a, 0).positive(), tri(a, 0).hasNegative() ? 1.f : 0.f)
ONE(to_yxy, tri(a, 0).toYxy())
ONE(to_yuv, tri(a, 0).toYuv())
ONE(from_yxy, tri(a, 0).fromYxy())
ONE(from_yuv, tri(a, 0).fromYuv())
TWO(yxy_yuv, Tristimulus::YxyToYuv(tri(a, 0)), Tristimulus::YuvToYxy(Tristimulus::YxyToYuv(tri(a, 0))))
TWO(xyz_circle, tri(a, 0).toYxy().fromYxy(), tri(a, 0).toYuv().fromYuv())
TWO(to_lab, Tristimulus::toCIELAB(tri(a, 0), tri(a, 3)), tri(a, 0).toCIELAB(tri(a, 3)))
ONE(to_lab_d50, tri(a, 0).toCIELAB())
TWO(from_lab, Tristimulus::fromCIELAB(tri(a, 0), tri(a, 3)), tri(a, 0).fromCIELAB(tri(a, 3)))
ONE(from_lab_d50, tri(a, 0).fromCIELAB())
ONE(lab_round, tri(a, 0).toCIELAB(tri(a, 3)).fromCIELAB(tri(a, 3)))
TWO(to_hsv, tri(a, 0).toHSV(), 1.f)
ONE(from_hsv, tri(a, 0).fromHSV())
ONE(hsv_round, tri(a, 0).toHSV().fromHSV())
ONE(from_ct, Tristimulus::fromCT(a[0], a[1]))
ONE(from_ct_default, Tristimulus::fromCT(a[0]))
ONE(from_planck, Tristimulus::fromPlanckianLocus(a[0], a[1]))
ONE(from_planck_default, Tristimulus::fromPlanckianLocus(a[0]))
ONE(from_cct, Tristimulus::fromCCT(a[0], a[1], a[2]))
ONE(from_cct_default, Tristimulus::fromCCT(a[0], a[1]))
static constexpr Tristimulus WHITES[] = {Illuminant_A, Illuminant_B, Illuminant_C, Illuminant_D50, Illuminant_D55, Illuminant_D60, Illuminant_D65, Illuminant_D75,
    Illuminant_E, Illuminant_F2, Illuminant_F7, Illuminant_F11};
ONE(illuminant, WHITES[(int)a[0]])
constexpr Gamut build(const A &a, int k) { return Gamut("g", a[k], a[k + 1], a[k + 2], a[k + 3], a[k + 4], a[k + 5], a[k + 6], a[k + 7]); }
static constexpr Gamut NAMED[] = {AdobeRGB, Rec709, Rec2020, DCI_P3, S_Gamut, S_Gamut3_Cine, ACEScg, ACES2065, LMS, XYZ};
constexpr Gamut fromEntries(const A &a, int k) { return Gamut("m", Matrix3(a[k + 6], a[k], a[k + 1], a[k + 2], a[k + 7], a[k + 3], a[k + 4], a[k + 5], 1.f)); }
constexpr Gamut pick(const A &a, int which, int at) { return which < 10 ? NAMED[which] : which == 10 ? build(a, at) : fromEntries(a, at); }
constexpr R describe(const Gamut &g)
{
    R o;
    o.put(g.toXYZ()), o.put(g.fromXYZ()), o.put(g.primaryRed()), o.put(g.primaryGreen()), o.put(g.primaryBlue()), o.put(g.primaryWhite());
    o.put(g.toXYZ(Tristimulus(1.f, 1.f, 1.f)));
    END;
}
OP(gamut) { return describe(build(a, 0)); }
OP(gamut_matrix) { return describe(Gamut("m", mat(a, 0))); }
OP(named_gamut) { return describe(NAMED[(int)a[0]]); }
OP(gamut_color)
{
    R           o;
    const Gamut g = build(a, 0);
    o.put(g.toXYZ(tri(a, 8))), o.put(g.fromXYZ(tri(a, 8))), o.put(g.fromXYZ(g.toXYZ(tri(a, 8)))), o.put(g.toXYZ(g.fromXYZ(tri(a, 8))));
    END;
}
ONE(convert, GamutConvert(pick(a, (int)a[0], 2), pick(a, (int)a[1], 10)))
TWO(convert_color, tri(a, 2).apply(GamutConvert(pick(a, (int)a[0], 5), pick(a, (int)a[1], 13))), pick(a, (int)a[1], 13).fromXYZ(pick(a, (int)a[0], 5).toXYZ(tri(a, 2))))
TWO(named_matrix, NAMED[(int)a[0]].toXYZ(), NAMED[(int)a[0]].fromXYZ())
OP(convert_laws)
{
    R           o;
    const Gamut s = pick(a, (int)a[0], 3), m = pick(a, (int)a[1], 11), d = pick(a, (int)a[2], 19);
    o.put(GamutConvert(m, d).mul(GamutConvert(s, m))), o.put(GamutConvert(s, d)), o.put(GamutConvert(s, s));
    o.put(GamutConvert(d, s).mul(GamutConvert(s, d))), o.put(GamutConvert(s, XYZ)), o.put(GamutConvert(XYZ, d));
    END;
}
constexpr float val(const A &a, int k, long i)
{
    const long A_ = (long)a[k], B = (long)a[k + 1], C = (long)a[k + 2], M = (long)a[k + 3], S = (long)a[k + 4];
    const long r = (A_ * i * i + B * i + C) % M, g = S / 64 % 4;
    float      f = (float)(g == 1 ? r - M / 2 : g == 2 ? -r : r);
    for (long j = 0; j < S % 64; j++) f *= 0.5f;
    for (long j = 0; j < 8 * (S / 256); j++) f *= 2.f;
    return f;
}
#define V1(n) val(a, k, n)
#define V10(n) V1(n), V1(n + 1), V1(n + 2), V1(n + 3), V1(n + 4), V1(n + 5), V1(n + 6), V1(n + 7), V1(n + 8), V1(n + 9)
#define V100(n) V10(n), V10(n + 10), V10(n + 20), V10(n + 30), V10(n + 40), V10(n + 50), V10(n + 60), V10(n + 70), V10(n + 80), V10(n + 90)
constexpr Spectrum spec(const A &a, int k) { return Spectrum(Spectrum::spectrum{{V100(0), V100(100), V100(200), V100(300)}}); }
// in an array of exactly that many samples: reading beyond them is not a constant expression
template <int N> constexpr float fetchN(const A &a)
{
    float s[N] = {};
    for (int i = 0; i < N; i++) s[i] = a[4 + i];
    return Spectrum::fetch(s, N, a[0], a[1], a[2]);
}
constexpr float fetchAny(const A &a)
{
    return a[3] == 2 ? fetchN<2>(a) : a[3] == 3 ? fetchN<3>(a) : a[3] == 4 ? fetchN<4>(a) : a[3] == 5 ? fetchN<5>(a) : a[3] == 6 ? fetchN<6>(a)
         : a[3] == 7 ? fetchN<7>(a) : a[3] == 8 ? fetchN<8>(a) : a[3] == 9 ? fetchN<9>(a) : a[3] == 10 ? fetchN<10>(a) : a[3] == 11 ? fetchN<11>(a)
         : a[3] == 12 ? fetchN<12>(a) : Spectrum::fetch(a.v + 4, (int)a[3], a[0], a[1], a[2]);
}
ONE(fetch, fetchAny(a))
ONE(sp_fetch, spec(a, 0).fetch(a[5]))
OP(spec_sums)
{
    R              o;
    const Spectrum x = spec(a, 0), y = spec(a, 5), z = spec(a, 10);
    o.put(x.sum()), o.put(x.dot(y)), o.put(Spectrum::dot3(x, y, z));
    END;
}
TWO(fetch_inf, spec(a, 0).fetch(HUGE_VALF), spec(a, 0).fetch(-HUGE_VALF))
constexpr const Observer &named(int i) { return i == 0 ? CIE1931 : i == 1 ? CIE31JV : CIE2012; }
TWO(integrate_named, named((int)a[0]).fromSpectrum(spec(a, 1)), named((int)a[0]).fromReflectanceAndLight(spec(a, 1), CIE_D65))
OP(integrate)
{
    R              o;
    const Observer ob(spec(a, 0), spec(a, 5), spec(a, 10));
    o.put(ob.fromSpectrum(spec(a, 15))), o.put(ob.fromReflectanceAndLight(spec(a, 15), spec(a, 20)));
    END;
}
constexpr void photo(R &o, const Observer &ob, float t, float w)
{
    o.put(ob.lumensFromMonochromaticFlux(t, w)), o.put(ob.candellasFromMonochromaticRadiance(t, w)), o.put(ob.xyz(t));
}
OP(photo)
{
    R o;
    photo(o, Observer(spec(a, 0), spec(a, 5), spec(a, 10)), a[15], a[16]);
    END;
}
OP(photo_named)
{
    R o;
    photo(o, named((int)a[0]), a[1], a[2]);
    END;
}
// a table of constants: initialised before anything runs
#define CT(op, ...) op_##op(A{{__VA_ARGS__}}),
static constexpr R ATCOMPILE[] = {
#include "ct_calls.inc"
};
#undef CT
typedef R (*Fn)(const A &);
#define CT(op, ...) {op_##op, A{{__VA_ARGS__}}},
struct Call { Fn f; A a; };
static Call CALLS[] = {
#include "ct_calls.inc"
};
#undef CT
int main(int argc, char **argv)
{
    FILE *out = argc > 2 ? fopen(argv[2], "w") : NULL;
    if (!out) return 64;
    for (size_t i = 0; i < sizeof CALLS / sizeof CALLS[0]; i++)
    {
        volatile A in = {};
        for (int j = 0; j < 32; j++) in.v[j] = CALLS[i].a.v[j];
        A x;
        for (int j = 0; j < 32; j++) x.v[j] = in.v[j];
        Fn volatile f = CALLS[i].f;
        const R r = f(x);
        for (int j = 0; j < ATCOMPILE[i].n; j++) fprintf(out, "%a ", ATCOMPILE[i].v[j]);
        for (int j = 0; j < r.n; j++) fprintf(out, "%a ", r.v[j]);
        fputc('\n', out);
    }
    fclose(out);
    return 0;
}
