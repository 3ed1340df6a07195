// C30: histories of calls.  One call = (function, variant of its arguments); its value is the hash of the bits
// of everything it returns.  Batches run on any number of threads, each call repeated; the value of a call in an
// empty history comes from a process that has made no call before (forked off a helper that never makes one).
#include <fcntl.h>
#include <fenv.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <stdlib.h>
#include <chrono>
#include <thread>
#include <unistd.h>
#if defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_report_fd(void *);
#endif
static int quietFd = -1;
__attribute__((constructor(101))) static void quiet()
{
    const int keep = dup(2);
#if defined(__SANITIZE_THREAD__)

    __sanitizer_set_report_fd((void *)(long)keep);
#endif
    quietFd = memfd_create("quiet", 0);
    if (quietFd < 0) { char n[] = "/tmp/verif-quiet-XXXXXX"; quietFd = mkstemp(n); unlink(n); }
    dup2(quietFd, 1);
    dup2(quietFd, 2);
}
#include "common.hpp"
typedef std::vector<float> F;
struct Ctx
{
    uint64_t h = 1469598103934665603ull;
    int      changed = 0;
    void     bytes(const void *p, size_t n)
    {
        for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull;
    }
    void r(float f) { bytes(&f, 4); }
    void r(double f) { bytes(&f, 8); }
    void r(const Tristimulus &t) { for (int i = 0; i < 3; i++) r(t[i]); }
    void r(const Vector3 &t) { for (int i = 0; i < 3; i++) r(t[i]); }
    void r(const Matrix3 &t) { for (int i = 0; i < 9; i++) r(t[i]); }
    void r(const Spectrum &t) { for (int i = 0; i < 400; i++) r(t[i]); }
    void r(const Gamut &g) { r(g.toXYZ()); r(g.fromXYZ()); bytes(g.name(), strlen(g.name())); }
    void r(const std::string &s) { bytes(s.data(), s.size()); }
};
struct Keep
{
    Ctx &c;
    const volatile uint8_t *p;
    std::vector<uint8_t> copy;
    Keep(Ctx &c, const void *q, size_t n) : c(c), p((const volatile uint8_t *)q), copy((const uint8_t *)q, (const uint8_t *)q + n) {}
    ~Keep() { for (size_t i = 0; i < copy.size(); i++) if (p[i] != copy[i]) { c.changed++; break; } }
};
#define KEEP(x) Keep keep_##x(c, &x, sizeof x)
#define KEEPV(x) Keep keep_##x(c, x.data(), x.size() * sizeof x[0])
struct Call { F base; void (*f)(const F &p, Ctx &c); };
static std::vector<Call> &calls() { static std::vector<Call> v; return v; }
struct AddCall { AddCall(F b, void (*f)(const F &, Ctx &)) { calls().push_back(Call{b, f}); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define CALL(...) CALL_(__COUNTER__, __VA_ARGS__)
#define CALL_(n, ...)                                                                                                  \
    static void    CAT(call, n)(const F &p, Ctx &c);                                                                   \
    static AddCall CAT(add, n)(F{__VA_ARGS__}, CAT(call, n));                                                          \
    static void    CAT(call, n)(const F &p, Ctx &c)
#define TRI(x, k) Tristimulus x(p[k], p[(k) + 1], p[(k) + 2]); KEEP(x)
#define VEC(x, k) Vector3 x(p[k], p[(k) + 1], p[(k) + 2]); KEEP(x)
#define MAT(x, k) Matrix3 x(p[k], p[(k) + 1], p[(k) + 2], p[(k) + 3], p[(k) + 4], p[(k) + 5], p[(k) + 6], p[(k) + 7], p[(k) + 8]); KEEP(x)
#define M9 1.1f, 0.2f, 0.3f, 0.15f, 0.9f, 0.25f, 0.05f, 0.35f, 1.2f
#define N9 0.7f, 0.1f, 0.2f, 0.3f, 1.3f, 0.15f, 0.45f, 0.25f, 0.8f
static Spectrum spc(const F &p, int k)          // level, slope, position of a spike, its height
{
    std::array<float, 400> s;
    for (int i = 0; i < 400; i++) s[i] = p[k] + p[k + 1] * i / 400.f;
    s[(int)fabsf(p[k + 2] * 399.f) % 400] += p[k + 3];
    return Spectrum(s);
}
#define S4 0.5f, 0.3f, 0.4f, 0.25f
CALL(M9, N9) { MAT(a, 0); MAT(b, 9); c.r(a.mul(b)); c.r(Matrix3::mul(b, a)); c.r(a.add(b)); }
CALL(M9) { MAT(a, 0); c.r(a.invert()); }
CALL(M9) { MAT(a, 0); c.r(a.det()); c.r(a.transpose()); c.r(a.row(1)); c.r(a.col(2)); }
CALL(M9, 0.3f, 0.5f, 0.7f) { MAT(a, 0); VEC(v, 9); c.r(a.apply(v)); TRI(t, 9); c.r(t.apply(a)); }
CALL(M9, 1.7f) { MAT(a, 0); c.r(a.mul(p[9])); c.r(a.div(p[9])); }
CALL(0.1f) { c.r(Matrix3::crosstalk(p[0])); c.r(Matrix3::crosstalkInvert(p[0])); }
CALL(M9) { F q(p); KEEPV(q); c.r(Matrix3::fromArray(q.data())); c.r(Matrix3::diag(Vector3(p[0], p[1], p[2]))); }
CALL(0.2f, 0.4f, 0.6f, 0.5f, 0.3f, 0.1f) { VEC(a, 0); VEC(b, 3); c.r(a.dot(b)); c.r(Vector3::dot(a, b)); }
CALL(0.2f, 0.4f, 0.6f, 0.5f, 0.3f, 0.1f, 1.5f)
{
    TRI(a, 0); TRI(b, 3);
    c.r(a + b); c.r(a * b); c.r(a * p[6]); c.r(a / p[6]); c.r(a.dot(b)); c.r(a.min(b)); c.r(a.max(b)); c.r(a.min3()); c.r(a.max3());
}
CALL(-0.2f, 0.4f, 1.6f, 0.1f, 0.9f) { TRI(a, 0); c.r(a.clip(p[3], p[4])); c.r(a.positive()); c.r((float)a.hasNegative()); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(a.toYxy()); }
CALL(0.3f, 0.31f, 0.33f) { TRI(a, 0); c.r(a.fromYxy()); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(a.toYuv()); }
CALL(0.3f, 0.2f, 0.3f) { TRI(a, 0); c.r(a.fromYuv()); }
CALL(0.3f, 0.4f, 0.5f, 0.95f, 1.f, 1.09f) { TRI(a, 0); TRI(w, 3); c.r(a.toCIELAB(w)); }
CALL(50.f, 10.f, -20.f, 0.95f, 1.f, 1.09f) { TRI(a, 0); TRI(w, 3); c.r(a.fromCIELAB(w)); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(a.toCIELAB()); c.r(Tristimulus(100 * p[0], 50 * p[1], 50 * p[2]).fromCIELAB()); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(a.toHSV()); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(a.toHSV_atan()); }
CALL(200.f, 0.4f, 0.5f) { TRI(a, 0); c.r(a.fromHSV()); }
CALL(5000.f, 1.f) { c.r(Tristimulus::fromPlanckianLocus(p[0], p[1])); c.r(Tristimulus::fromPlanckianLocus(p[0])); }
CALL(5000.f, 1.f) { c.r(Tristimulus::fromCT(p[0], p[1])); c.r(Tristimulus::fromCT(p[0])); }
CALL(5000.f, 0.01f, 1.f) { c.r(Tristimulus::fromCCT(p[0], p[1], p[2])); c.r(Tristimulus::fromCCT(p[0], p[1])); }
CALL(0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, 0.3127f, 0.329f)
{
    Gamut g("g", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); KEEP(g);
    c.r(g); c.r(g.primaryWhite()); c.r(g.primaryRed()); c.r(g.primaryGreen()); c.r(g.primaryBlue());
}
CALL(M9) { MAT(a, 0); Gamut g("m", a); KEEP(g); c.r(g); c.r(g.primaryVector()); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(Rec709.toXYZ(a)); c.r(Rec2020.fromXYZ(a)); c.r(LMS.fromXYZ(a)); }
CALL(0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, 0.3127f, 0.329f, N9)
{
    Gamut g("g", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); MAT(m, 8); Gamut h("h", m); KEEP(g); KEEP(h);
    c.r(GamutConvert(g, h)); c.r(GamutConvert(h, g)); c.r(GamutConvert(g, Rec709));
}
CALL(0.95f, 1.f, 1.09f, 0.96f, 1.02f, 0.82f) { TRI(a, 0); TRI(b, 3); c.r(Bradford(a, b)); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(XYZ_to_ICtCp(a)); }
CALL(0.4f, 0.05f, -0.03f) { TRI(a, 0); c.r(ICtCp_to_XYZ(a)); }
CALL(0.3f, 0.4f, 0.5f) { TRI(a, 0); c.r(XYZ_to_OKLAB(a)); }
CALL(0.6f, 0.05f, -0.1f) { TRI(a, 0); c.r(OKLAB_to_XYZ(a)); }
CALL(0.3f, 0.2f, 0.3f, 0.25f, 0.22f, 0.28f) { TRI(a, 0); TRI(b, 3); c.r(Delta::UV(a, b)); }
CALL(50.f, 10.f, -20.f, 60.f, -5.f, 12.f) { TRI(a, 0); TRI(b, 3); c.r(Delta::E76(a, b)); }
CALL(50.f, 10.f, -20.f, 60.f, -5.f, 12.f, 1.f, 1.f, 1.f) { TRI(a, 0); TRI(b, 3); c.r(Delta::E00(a, b, p[6], p[7], p[8])); c.r(Delta::E00(a, b)); }
CALL(0.3f, 0.4f, 0.5f, 0.35f, 0.3f, 0.6f) { TRI(a, 0); TRI(b, 3); c.r(Delta::ICtCp(a, b)); }
#define SCREEN(T)                                                                                                      \
    CALL(0.3f, 0.4f, 0.5f, 2.2f) { TRI(a, 0); c.r(OTF::toScreen(OTF::T, a, p[3])); c.r(OTF::toScreen(OTF::T, a)); }     \
    CALL(0.3f, 0.4f, 0.5f, 2.2f) { TRI(a, 0); c.r(OTF::toScene(OTF::T, a, p[3])); c.r(OTF::toScene(OTF::T, a)); }
SCREEN(LINEAR) SCREEN(GAMMA) SCREEN(SRGB) SCREEN(BT709) SCREEN(ST2084) SCREEN(SLOG) SCREEN(SLOG2) SCREEN(SLOG3) SCREEN(HLG)
CALL(0.3f, 0.6f, 2.2f)
{
    c.r(OTF::Y_to_ST2084(p[0])); c.r(OTF::ST2084_to_Y(p[1])); c.r(OTF::Y_to_sRGB(p[0])); c.r(OTF::sRGB_to_Y(p[1])); c.r(OTF::Y_to_BT709(p[0]));
    c.r(OTF::BT709_to_Y(p[1])); c.r(OTF::Y_to_HLG(p[0])); c.r(OTF::HLG_to_Y(p[1])); c.r(OTF::Y_to_SLog(p[0])); c.r(OTF::SLog_to_Y(p[1]));
    c.r(OTF::Y_to_SLog2(p[0])); c.r(OTF::SLog2_to_Y(p[1])); c.r(OTF::Y_to_SLog3(p[0])); c.r(OTF::SLog3_to_Y(p[1])); c.r(OTF::gamma(p[0], p[2]));
    c.r(OTF::degamma(p[1], p[2]));
}
CALL(0.1f, 0.5f, 0.9f, 0.4f, 0.2f, 400.f, 700.f, 533.3f)
{
    F s(p.begin(), p.begin() + 5); KEEPV(s);
    c.r(Spectrum::fetch(s.data(), 5, p[5], p[6], p[7])); c.r(Spectrum::fetch(s.data(), 4, p[5], p[6], p[7]));
}
CALL(0.1f, 0.5f, 0.9f, 0.4f, 0.2f, 400.f, 700.f) { F s(p.begin(), p.begin() + 5); KEEPV(s); c.r(Spectrum(s.data(), 5, p[5], p[6])); c.r(Spectrum(s.data(), 3, p[5], p[6])); }
CALL(S4, 555.5f) { Spectrum s = spc(p, 0); KEEP(s); c.r(s.fetch(p[4])); c.r(s.sum()); }
CALL(S4, S4, 0.7f) { Spectrum s = spc(p, 0), t = spc(p, 4); KEEP(s); KEEP(t); c.r(s * t); c.r(s + t); c.r(s * p[8]); }
CALL(S4, S4, S4) { Spectrum s = spc(p, 0), t = spc(p, 4), u = spc(p, 8); KEEP(s); KEEP(t); KEEP(u); c.r(s.dot(t)); c.r(Spectrum::dot3(s, t, u)); c.r(Spectrum::dot(t, u)); }
CALL(3000.f, 550e-9f, 1.5f) { c.r(Spectrum::planck(p[0], p[1])); c.r(Spectrum::E(p[2])); }
CALL(3000.f) { c.r(Spectrum::blackbody(p[0])); }
CALL(S4, S4, S4, S4, S4)
{
    Observer o(spc(p, 0), spc(p, 4), spc(p, 8)); Spectrum s = spc(p, 12), l = spc(p, 16); KEEP(o); KEEP(s); KEEP(l);
    c.r(o.fromSpectrum(s)); c.r(o.fromReflectanceAndLight(s, l));
}
CALL(S4, S4) { Spectrum s = spc(p, 0), l = spc(p, 4); KEEP(s); KEEP(l); c.r(CIE1931.fromSpectrum(s)); c.r(CIE2012.fromReflectanceAndLight(s, l)); c.r(CIE31JV.fromSpectrum(l)); }
CALL(S4, S4) { Spectrum s = spc(p, 0), l = spc(p, 4); c.r(CIE1931.fromSpectrum(s)); c.r(CIE1931.fromReflectanceAndLight(s, l)); }
CALL(S4, S4, S4, 555.5f, 2.5f)
{
    Observer o(spc(p, 0), spc(p, 4), spc(p, 8)); KEEP(o);
    c.r(o.lumensFromMonochromaticFlux(p[12], p[13])); c.r(o.candellasFromMonochromaticRadiance(p[12], p[13])); c.r(o.xyz(p[12]));
}
CALL(555.5f, 2.5f) { c.r(CIE1931.lumensFromMonochromaticFlux(p[0], p[1])); c.r(CIE2012.candellasFromMonochromaticRadiance(p[0], p[1])); c.r(CIE31JV.xyz(p[0])); }
CALL(0.1f, 0.2f) { c.r(TM_30_15::CES01); c.r(CIE_D65); c.r(Macbeth::Patch[(int)(fabsf(p[0]) * 100) % 24]); }
CALL(S4) { Spectrum l = spc(p, 0); KEEP(l); auto v = Macbeth::reference(l); for (auto &t : v) c.r(t); auto w = Macbeth::reference(l, CIE2012); for (auto &t : w) c.r(t); }
// element by element, through the operators the library offers
static bool same(SOLVER::Matrix &a, SOLVER::Matrix &b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int i = 0; i < a.rows(); i++)
        for (int j = 0; j < a.cols(); j++)
            if (memcmp(&a[i][j], &b[i][j], sizeof(float))) return false;
    return true;
}
static bool same(SOLVER::Vector &a, SOLVER::Vector &b, int n)
{
    for (int i = 0; i < n; i++)
        if (memcmp(&a[i], &b[i], sizeof(float))) return false;
    return true;
}
static void lin(const F &p, SOLVER::Matrix &A, SOLVER::Vector &b)
{
    for (int i = 0; i < 5; i++)
    {
        for (int j = 0; j < 3; j++) A[i][j] = (i == j ? 2.f : 0.f) + p[(i * 3 + j) % 9];
        b[i] = p[9 + i % 3] * (i + 1);
    }
}
CALL(M9, 1.f, 2.f, 3.f)
{
    SOLVER::Matrix A(5, 3), A0; SOLVER::Vector b(5), b0, x(3); lin(p, A, b); A0 = A; b0 = b;
    c.r((float)SOLVER::solve(A, b, x)); for (int i = 0; i < 3; i++) c.r(x[i]);
    c.r((float)SOLVER::solve(A, b, x, 1e-4f)); for (int i = 0; i < 3; i++) c.r(x[i]);
    if (!same(A, A0) || !same(b, b0, 5)) c.changed++;
}
// back substitution, if there is one of its own
template <class M, class V> static auto backsub(M &A, V &w, M &v, V &b, V &x, int) -> decltype(svbksb(A, w, v, b, x)) { return svbksb(A, w, v, b, x); }
template <class M, class V> static void backsub(M &, V &, M &, V &, V &, long) {}
CALL(M9, 1.f, 2.f, 3.f)
{
    SOLVER::Matrix A(5, 3), V(3, 3); SOLVER::Vector b(5), w(3), x(3); lin(p, A, b);
    c.r((float)SOLVER::svdcmp(A, w, V)); auto A1 = A; auto w1 = w; auto V1 = V; auto b1 = b;
    backsub(A, w, V, b, x, 0); if (!same(A, A1) || !same(w, w1, 3) || !same(V, V1) || !same(b, b1, 5)) c.changed++;
    for (int i = 0; i < 3; i++) { c.r(w[i]); c.r(x[i]); for (int j = 0; j < 3; j++) c.r(V[i][j]); }
    for (int i = 0; i < 5; i++) for (int j = 0; j < 3; j++) c.r(A[i][j]);
}
CALL(M9, N9)
{
    std::vector<Tristimulus> a, b;
    for (int i = 0; i < 3; i++) { a.push_back(Tristimulus(p[3 * i] + i, p[3 * i + 1], p[3 * i + 2])); b.push_back(Tristimulus(p[9 + 3 * i], p[10 + 3 * i], p[11 + 3 * i])); }
    KEEPV(a); KEEPV(b); c.r(Corrector::solve(a, b)); if (a.size() != 3 || b.size() != 3) c.changed++;
}
CALL(0.4f, 0.5f, 0.6f, 0.3f, 0.2f, 0.7f)          // many patches, of which only some differ between two calls
{
    std::vector<Tristimulus> a, b;
    for (int i = 0; i < 20; i++) { a.push_back(Tristimulus(0.1f + 0.04f * (i % 7), 0.2f + 0.05f * (i % 5), 0.3f + 0.03f * (i % 9))); b.push_back(a.back().scale(0.5f + 0.1f * (i % 3))); }
    a[5] = Tristimulus(p[0], a[5][1], a[5][2]); a[11] = Tristimulus(a[11][0], p[1], a[11][2]); a[19] = Tristimulus(a[19][0], a[19][1], p[2]);
    b[2] = Tristimulus(p[3], b[2][1], b[2][2]); b[9] = Tristimulus(b[9][0], p[4], b[9][2]); b[17] = Tristimulus(b[17][0], b[17][1], p[5]);
    KEEPV(a); KEEPV(b); c.r(Corrector::solve(a, b)); if (a.size() != 20 || b.size() != 20) c.changed++;
}
static std::vector<Tristimulus> chart(const F &p)
{
    std::vector<Tristimulus> v = Macbeth::reference(CIE_D65);
    for (size_t i = 0; i < v.size(); i++) v[i] = Tristimulus(v[i][0] * p[0] + v[i][1] * p[1], v[i][1] * p[2], v[i][2] * p[3] + v[i][0] * p[4]);
    return v;
}
CALL(0.012f, 0.001f, 0.009f, 0.013f, 0.002f, S4)
{
    auto v = chart(p); Spectrum l = spc(p, 5); KEEPV(v); KEEP(l);
    c.r(Corrector::solve(v)); c.r(Corrector::solve(v, l)); c.r(Corrector::solve(v, l, CIE2012)); if (v.size() != 24) c.changed++;
}
CALL(0.012f, 0.001f, 0.009f, 0.013f, 0.002f, S4)
{
    auto v = chart(p); Spectrum l = spc(p, 5); KEEPV(v); KEEP(l);
    c.r(Corrector::makeGamut("a", v)); c.r(Corrector::makeGamut("b", v, l, CIE31JV)); if (v.size() != 24) c.changed++;
}
CALL(0.5f, 2.f) { c.r(util::sqrtf(p[0])); c.r(util::sqrtf(p[1])); }
CALL(1.f, 2.f, 3.f, 4.f)
{
    MemoryStream s;
    if (p[3] > 4.f) s.setWriteEndian(MemoryStream::BIG);
    auto q = s.putPointer32(); s.putFloat(p[0]); s.putDouble(p[1]); s.putString("hello"); s.putInt16((int16_t)(p[2] * 100)); s.align(1); s.adjustPointer32(q);
    c.bytes(s.buffer().data(), s.buffer().size()); s.fseek(0, MemoryStream::TOP); c.r((float)s.getUint32()); c.r(s.getFloat()); c.r(s.getDouble()); c.r(s.get_string());
    F blk(p); KEEPV(blk); MemoryStream t(blk.data(), blk.size() * 4); c.r(t.getFloat()); c.r(loadGamutFromICCProfileMemory(blk.data(), blk.size() * 4));
}
static F args(const Call &k, int v)
{
    F p(k.base); const int n = p.size();
    if (v >= 1 && v <= n) p[v - 1] = p[v - 1] * 1.0625f;                                // one component differs
    else if (v == n + 1) for (int i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]);  // same components, other order
    else if (v == n + 2) for (auto &x : p) x *= 0.9375f;
    else if (v == n + 3) for (int i = 1; i < n; i += 2) p[i] *= 0.875f;
    else if (v == n + 4) { for (int i = 0; i < n; i += 3) p[i] *= 0.75f; }
    else if (v == n + 5) { std::swap(p[0], p[n - 1]); }
    else if (v >= n + 6 && v < 2 * n + 6) p[v - n - 6] *= 1.f + 1.f / 4194304;             // one component nearly the same
    else if (v >= 2 * n + 6 && v < 3 * n + 6) p[v - 2 * n - 6] *= 1.f + 1.f / 32768;
    else if (v == 3 * n + 6) for (auto &x : p) x *= 1.f / 1024;                         // everything dim, bright, nothing
    else if (v == 3 * n + 7) for (auto &x : p) x *= 64.f;
    else if (v == 3 * n + 8) for (auto &x : p) x = 0.f;
    else if (v >= 3 * n + 9 && v < 4 * n + 9) p[v - 3 * n - 9] = 0.f;                      // one component zero or negative
    else if (v >= 4 * n + 9 && v < 5 * n + 9) p[v - 4 * n - 9] = -p[v - 4 * n - 9];
    else if (v >= 5 * n + 9 && v < 6 * n + 9) p[v - 5 * n - 9] = 1.f / 1048576;            // one component small: two of them differ by little
    else if (v >= 6 * n + 9 && v < 7 * n + 9) p[v - 6 * n - 9] = 1.f / 2097152;
    else if (v >= 7 * n + 9 && v < 8 * n + 9) p[v - 7 * n - 9] *= 1.f + 1.f / 262144;      // one component differs by little
    else if (v >= 8 * n + 9) p[v - 8 * n - 9] *= 1.f - 1.f / 1024;
    return p;
}
static int variants(int f) { return 9 * (int)calls()[f].base.size() + 9; }
static double value(int f, int v, int &changed)
{
    f %= (int)calls().size();
    const Call &k = calls()[f];
    const F p = args(k, v % variants(f));
    F q(p); Ctx c; const int rm = fegetround();
    k.f(q, c);
    if (memcmp(q.data(), p.data(), p.size() * sizeof(float)) || fegetround() != rm) c.changed++;
    changed += c.changed;
    return (double)(c.h >> 12);
}
// ---- the process without history
static int toZ[2], fromZ[2];
enum { MAXREQ = 24 };
struct Req { int n, f[MAXREQ], v[MAXREQ]; };
struct Ans { int changed; double secs, d[MAXREQ]; };
static void zygote()
{
    Req r;
    while (read(toZ[0], &r, sizeof r) == sizeof r)
    {
        const pid_t c = fork();
        Ans         a; memset(&a, 0, sizeof a);
        if (c == 0)
        {
            for (int i = 0; i < r.n; i++) a.d[i] = value(r.f[i], r.v[i], a.changed);
            int        unused = 0;                        // the cost is that of later calls, without first-time page faults
            const auto t0 = std::chrono::steady_clock::now();
            for (int i = 0; i < r.n; i++) value(r.f[i], r.v[i], unused);
            a.secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            fflush(NULL); ssize_t w = write(fromZ[1], &a, sizeof a); (void)w; _exit(0);
        }
        int st = 0; waitpid(c, &st, 0);
        if (st != 0) { for (auto &d : a.d) d = -1; ssize_t w = write(fromZ[1], &a, sizeof a); (void)w; }
    }
    _exit(0);
}
static bool started;
static void start()
{
    if (started) return;
    started = true;
    if (pipe(toZ) || pipe(fromZ)) exit(64);
    if (fork() == 0) { close(toZ[1]); zygote(); }
    close(toZ[0]);
}
static Ans ask(const Req &r)
{
    Ans a;
    if (write(toZ[1], &r, sizeof r) != sizeof r || read(fromZ[0], &a, sizeof a) != sizeof a) exit(66);
    return a;
}
struct Fresh { double d, secs; };
static const Fresh &freshOf(int f, int v)
{
    static std::map<std::pair<int, int>, Fresh> memo;
    f %= (int)calls().size(); v %= variants(f);
    auto it = memo.find({f, v});
    if (it != memo.end()) return it->second;
    Req r; memset(&r, 0, sizeof r); r.n = 1; r.f[0] = f; r.v[0] = v;
    const Ans s = ask(r);
    return memo[{f, v}] = Fresh{s.d[0], s.secs};
}
static double fresh(int f, int v) { return freshOf(f, v).d; }
static double costOf(int f, int v) { return freshOf(f, v).secs; }
// a = threads, repetitions, then (f, v) pairs.  Out: calls whose value differs from the value without history, changed inputs, bytes printed, number of calls
OP(batch)
{
    start();
    int       rep = (int)a[1];
    const int nt = (int)a[0], n = ((int)a.size() - 2) / 2;
    std::vector<double> want(n);
    for (int i = 0; i < n; i++) want[i] = fresh((int)a[2 + 2 * i], (int)a[3 + 2 * i]);
    std::vector<int> bad(nt), chg(nt);
    // costly calls are repeated less often
#if defined(__SANITIZE_THREAD__)
    const double budget = 0.15;
#else
    const double budget = 0.4;
#endif
    {
        double cost = 0;                      // measured in the process without history: this one must not be warmed up
        for (int i = 0; i < n; i++) cost += costOf((int)a[2 + 2 * i], (int)a[3 + 2 * i]);
        rep = std::max(2, std::min(rep, (int)(budget / (cost + 1e-9))));
    }
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, nt);
    auto body = [&](int t) {
        if (nt > 1) pthread_barrier_wait(&bar);
        for (int r = 0; r < rep; r++)
            for (int i = 0; i < n; i++)
            {
                const int k = (i + t) % n;      // threads work on the same few calls, shifted
                if (value((int)a[2 + 2 * k], (int)a[3 + 2 * k], chg[t]) != want[k]) bad[t]++;
            }
    };
    if (nt == 1) body(0);
    else
    {
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++) th.emplace_back(body, t);
        for (auto &x : th) x.join();
    }
    pthread_barrier_destroy(&bar);
    fflush(NULL);
    struct stat st; fstat(quietFd, &st);
    double B = 0, C = 0;
    for (int t = 0; t < nt; t++) B += bad[t], C += chg[t];
    o.push_back(B); o.push_back(C); o.push_back((double)st.st_size); o.push_back((double)nt * rep * n);
}
// a = length of a history, then histories of (f, v) pairs, each made in a process of its own
OP(fresh)
{
    start();
    const int len = (int)a[0], n = ((int)a.size() - 1) / 2 / len;
    double    B = 0, C = 0;
    for (int h = 0; h < n; h++)
    {
        Req r; memset(&r, 0, sizeof r); r.n = len;
        for (int i = 0; i < len; i++) r.f[i] = (int)a[1 + 2 * (h * len + i)], r.v[i] = (int)a[2 + 2 * (h * len + i)];
        const Ans s = ask(r);
        for (int i = 0; i < len; i++) if (s.d[i] != fresh(r.f[i], r.v[i])) B++;
        C += s.changed;
    }
    struct stat st; fstat(quietFd, &st);
    o.push_back(B); o.push_back(C); o.push_back((double)st.st_size); o.push_back((double)n * len);
}
OP(calls) { o.push_back((double)calls().size()); }
