// Replayer: reads one call per line ("op n x1 .. xn", hexadecimal floats),
// performs it on the real library and writes the results, one line per call.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "colorsystem.hpp"

using namespace ColorSystem;
typedef std::vector<double> In;
typedef std::vector<double> Out;
typedef void (*OpFn)(const In &a, Out &o);
static std::map<std::string, OpFn> &ops()
{
    static std::map<std::string, OpFn> m;
    return m;
}
struct Reg
{
    Reg(const char *n, OpFn f) { ops()[n] = f; }
};
#define OP(name)                                                                                                       \
    static void op_##name(const In &a, Out &o);                                                                        \
    static Reg  reg_##name(#name, op_##name);                                                                          \
    static void op_##name(const In &a, Out &o)

static inline Matrix3 mat(const In &a, int k)
{
    return Matrix3((float)a[k], (float)a[k + 1], (float)a[k + 2], (float)a[k + 3], (float)a[k + 4], (float)a[k + 5],
        (float)a[k + 6], (float)a[k + 7], (float)a[k + 8]);
}
static inline Vector3     vec(const In &a, int k) { return Vector3((float)a[k], (float)a[k + 1], (float)a[k + 2]); }
static inline Tristimulus tri(const In &a, int k) { return Tristimulus((float)a[k], (float)a[k + 1], (float)a[k + 2]); }
static inline void        put(Out &o, const Matrix3 &m)
{
    for (int i = 0; i < 9; i++) o.push_back(m[i]);
}
static inline void put(Out &o, const Vector3 &v)
{
    for (int i = 0; i < 3; i++) o.push_back(v[i]);
}
static inline void put(Out &o, const Tristimulus &v)
{
    for (int i = 0; i < 3; i++) o.push_back(v[i]);
}
static inline void put(Out &o, const Spectrum &s)
{
    for (int i = 0; i < 400; i++) o.push_back(s[i]);
}
static inline void put(Out &o, float f) { o.push_back(f); }
// two forms of the same call: both results are compared with the specification
template <class T> static inline void both(Out &o, const T &x, const T &y)
{
    put(o, x);
    put(o, y);
}
// arguments that a call must leave alone (judged by C30 only)
static thread_local int altered = 0;
template <class T> static inline void kept(const T &now, const T &before)
{
    if (now.size() != before.size() || (now.size() && memcmp(&now[0], &before[0], now.size() * sizeof now[0]))) altered++;
}
static bool parse(char *buf, OpFn &f, In &a)
{
    char *p = strtok(buf, " \n");
    if (!p) return false;
    auto it = ops().find(p);
    if (it == ops().end())
    {
        fprintf(stderr, "unknown op %s\n", p);
        exit(65);
    }
    f = it->second;
    a.clear();
    while ((p = strtok(NULL, " \n"))) a.push_back(strtod(p, NULL));
    return true;
}
#ifdef VERIF_PURE
// Purity of whole behaviours: the calls once in order, once backwards, once on several threads that start at different
// places, and some of them in a process that has made no call before; counts the results whose bits differ.
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
static bool same(const Out &x, const Out &y)
{
    return x.size() == y.size() && (x.empty() || memcmp(x.data(), y.data(), x.size() * sizeof x[0]) == 0);
}
static void pureMain(FILE *in, FILE *out)
{
    struct Line { OpFn f; In a; };
    std::vector<Line> l;
    char  *buf = NULL;
    size_t cap = 0;
    while (getline(&buf, &cap, in) > 0)
    {
        Line x;
        if (parse(buf, x.f, x.a)) l.push_back(x);
    }
    const int           n = (int)l.size(), T = 4;
    std::vector<Out>    first(n);
    std::vector<double> bad(n);
    // without history: every 23rd call in a process of its own
    double *shared = (double *)mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<int, Out> alone;
    for (int i = 0; i < n; i += 23)
    {
        shared[0]     = -1;
        const pid_t c = fork();
        if (c == 0)
        {
            Out o;
            l[i].f(l[i].a, o);
            const size_t k = std::min(o.size(), (size_t)100000);
            memcpy(shared + 1, o.data(), k * 8);
            shared[0] = (double)k;
            fflush(NULL);
            _exit(0);
        }
        waitpid(c, NULL, 0);
        if (shared[0] >= 0) alone[i] = Out(shared + 1, shared + 1 + (int)shared[0]);
    }
    for (int i = 0; i < n; i++)
    {
        altered = 0;
        l[i].f(l[i].a, first[i]);
        bad[i] = altered;
    }
    for (auto &x : alone)
        if (!same(x.second, first[x.first])) bad[x.first]++;
    for (int i = n - 1; i >= 0; i--)
    {
        Out o;
        l[i].f(l[i].a, o);
        if (!same(o, first[i])) bad[i]++;
    }
    std::vector<std::vector<char>> tb(T, std::vector<char>(n));
    std::vector<std::thread>       th;
    for (int t = 0; t < T; t++)
        th.emplace_back([&, t] {
            for (int j = 0; j < n; j++)
            {
                const int i = (j + t * (n / T)) % n;
                Out       o;
                l[i].f(l[i].a, o);
                if (!same(o, first[i])) tb[t][i] = 1;
            }
        });
    for (auto &x : th) x.join();
    for (int i = 0; i < n; i++)
    {
        for (int t = 0; t < T; t++) bad[i] += tb[t][i];
        fprintf(out, "%a\n", bad[i]);
    }
    fclose(out);
}
#endif
int main(int argc, char **argv)
{
    if (argc < 3) return 64;
    FILE *in  = fopen(argv[1], "r");
    FILE *out = fopen(argv[2], "w");
    if (!in || !out) return 64;
#ifdef VERIF_PURE
    pureMain(in, out);
    return 0;
#endif
    char  *buf = NULL;
    size_t cap = 0;
    In     a;
    Out    o;
    OpFn   f;
    while (getline(&buf, &cap, in) > 0)
    {
        if (!parse(buf, f, a)) continue;
        o.clear();
        f(a, o);
        for (double d : o) fprintf(out, "%a ", d);
        fputc('\n', out);
        fflush(out);
    }
    fclose(out);
    fclose(in);
    free(buf);
    return 0;
}
