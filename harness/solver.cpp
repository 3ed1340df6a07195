#include "common.hpp"
#include <cmath>
// C28
static SOLVER::Matrix read(const In &a, int k, int m, int n, int sc)
{
    SOLVER::Matrix M(m, n);
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) M[i][j] = (float)ldexp(a[k + i * n + j], sc);
    return M;
}
// element by element, through the operators the library offers
// what results are written to may hold anything before
static void used(SOLVER::Vector &v, int n) { for (int i = 0; i < n; i++) v[i] = 1.25f + i; }
static void used(SOLVER::Matrix &v, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v[i][j] = 1.25f - 0.5f * (i != j) * (j + 1); }
static bool same(SOLVER::Matrix &a, SOLVER::Matrix &b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int i = 0; i < a.rows(); i++)
        for (int j = 0; j < a.cols(); j++)
            if (memcmp(&a[i][j], &b[i][j], sizeof(float))) return false;
    return true;
}
static bool same(SOLVER::Vector &a, SOLVER::Vector &b, int n)
{
    for (int i = 0; i < n; i++)
        if (memcmp(&a[i], &b[i], sizeof(float))) return false;
    return true;
}
OP(lsq)
{
    const int      m = (int)a[0], n = (int)a[1], ka = (int)a[2], kb = (int)a[3];
    SOLVER::Matrix A = read(a, 4, m, n, ka), A0 = A;
    SOLVER::Vector b(m), x(n);
    used(x, n);
    for (int i = 0; i < m; i++) b[i] = (float)ldexp(a[4 + m * n + i], kb);
    SOLVER::Vector b0 = b;
    const int r = SOLVER::solve(A, b, x);
    o.push_back(same(A, A0) && same(b, b0, m) ? r == 0 : -1);
    for (int j = 0; j < n; j++) put(o, x[j]);
}
OP(lsq_cut)
{
    const int      n = (int)a[0];
    SOLVER::Matrix A(n, n);
    SOLVER::Vector b(n), x(n);
    used(x, n);
    for (int i = 0; i < n; i++) A[i][i] = (float)a[2 + i], b[i] = (float)a[2 + n + i];
    const int r = a[1] == 0 ? SOLVER::solve(A, b, x) : SOLVER::solve(A, b, x, (float)a[1]);
    o.push_back(r == 0);
    for (int j = 0; j < n; j++) put(o, x[j]);
}
struct Laws
{
    double eu = 0, ev = 0, ep = 0, neg = 0, fail = 0, w2 = 0;
};
static void worst(double &e, double d)
{
    d = fabs(d);
    if (!(d <= e)) e = d;
}
static void laws(const SOLVER::Matrix &A, int m, int n, Laws &L)
{
    SOLVER::Matrix U = A, A0 = A, V(n, n);
    SOLVER::Vector w(n);
    used(w, n);
    used(V, n);
    if (SOLVER::svdcmp(U, w, V) < 0) L.fail++;
    double fro = 0, ep = 0, w2 = 0;
    for (int i = 0; i < n; i++)
    {
        if (!(w[i] >= 0)) L.neg++;
        w2 += (double)w[i] * w[i];
        for (int j = 0; j < n; j++)
        {
            double s = 0, t = 0;
            for (int k = 0; k < m; k++) s += (double)U[k][i] * U[k][j];
            for (int k = 0; k < n; k++) t += (double)V[k][i] * V[k][j];
            worst(L.eu, s - (i == j));
            worst(L.ev, t - (i == j));
        }
    }
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++)
        {
            double s = 0;
            for (int k = 0; k < n; k++) s += (double)U[i][k] * w[k] * V[j][k];
            worst(ep, s - A0[i][j]);
            fro += (double)A0[i][j] * A0[i][j];
        }
    worst(L.ep, ep / (sqrt(fro) + 1e-30));
    L.w2 = sqrt(w2);
}
OP(svd)
{
    const int m = (int)a[0], n = (int)a[1];
    Laws      L;
    laws(read(a, 3, m, n, (int)a[2]), m, n, L);
    o.push_back(L.eu);
    o.push_back(L.ev);
    o.push_back(L.ep);
    o.push_back(L.neg);
    o.push_back(L.fail == 0);
    o.push_back(L.w2);
}
static uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
// systems of any size with a known solution: rows c * unit (so that the columns are far from dependent), rows of small
// integers once with b + e and once with b - e, rows of zeros; in any order.  kind 1: e = 0
OP(lsq_family)
{
    const int kind = (int)a[0], m = (int)a[1], n = (int)a[2], ka = (int)a[3], count = (int)a[5];
    uint64_t  z = (uint64_t)a[4] << 32;
    double    e = 0, bad = 0;
    for (int t = 0; t < count; t++)
    {
        std::vector<double> x(n);
        for (auto &v : x) v = (double)(int)((mix(z++) >> 20) % 9) - 4;
        const double                     c = 1 + floor(sqrt((double)m * n) / 2);
        std::vector<std::vector<double>> R;
        for (int i = 0; i < n; i++)
        {
            std::vector<double> r(n + 1);
            r[i] = (mix(z++) >> 20) % 2 ? c : -c;
            r[n] = r[i] * x[i];
            R.push_back(r);
        }
        while ((int)R.size() + 2 <= m)
        {
            std::vector<double> r(n + 1);
            for (int j = 0; j < n; j++) r[j] = (double)(int)((mix(z++) >> 20) % 3) - 1, r[n] += r[j] * x[j];
            const double d = kind == 1 ? 0 : (double)(int)((mix(z++) >> 20) % 17) - 8;
            r[n] += d;
            R.push_back(r);
            r[n] -= 2 * d;
            R.push_back(r);
        }
        if ((int)R.size() < m) R.push_back(std::vector<double>(n + 1));
        for (int i = m - 1; i > 0; i--) std::swap(R[i], R[(mix(z++) >> 20) % (i + 1)]);
        SOLVER::Matrix A(m, n);
        SOLVER::Vector b(m), y(n);
        used(y, n);
        for (int i = 0; i < m; i++)
        {
            for (int j = 0; j < n; j++) A[i][j] = (float)ldexp(R[i][j], ka);
            b[i] = (float)ldexp(R[i][n], ka);
        }
        if (SOLVER::solve(A, b, y) != 0) bad++;
        for (int j = 0; j < n; j++) worst(e, y[j] - x[j]);
    }
    o.push_back(e);
    o.push_back(bad);
    o.push_back(count);
}
OP(svd_family)
{
    const int kind = (int)a[0], m = (int)a[1], n = (int)a[2], ka = (int)a[3], count = (int)a[5];
    uint64_t  z = (uint64_t)a[4] << 32;
    Laws      L;
    for (int t = 0; t < count; t++)
    {
        SOLVER::Matrix A(m, n);
        for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++)
            {
                const uint64_t h = mix(z++) >> 20;
                double         x;
                switch (kind)
                {
                case 0: x = (double)(h % 3) - 1; break;
                case 1: x = (double)(h % 7) - 3; break;
                case 2: x = h % 3 ? ((double)(h / 3 % 2001) - 1000) / 1000 : 0; break;
                case 3: x = h % 4 ? 0 : (double)(h / 4 % 3) - 1; break;
                case 4: x = h % 256 / 255.0; break;
                default: x = h % 3 ? 0 : (double)(h / 3 % 5) - 2;
                }
                A[i][j] = (float)ldexp(x, ka);
            }
        const uint64_t h = mix(z++) >> 20;
        if (h % 8 == 0)
            for (int i = 0; i < m; i++) A[i][h / 8 % n] = 0;
        if (h % 8 == 1)
            for (int i = 0; i < m; i++) A[i][h / 8 % n] = A[i][h / 128 % n];
        laws(A, m, n, L);
    }
    o.push_back(L.eu);
    o.push_back(L.ev);
    o.push_back(L.ep);
    o.push_back(L.neg);
    o.push_back(L.fail);
    o.push_back(count);
}
