// Arrays handed to the code under test, with a model-side shadow: every cell knows whether
// the reference model read it and/or wrote it.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <omp.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_SAN 1
#else
#define PBT_SAN 0
#endif

namespace pbt
{
// reference value: long double value plus the magnitude that went into it, from which the
// rounding tolerance is derived.  `ex` = obtained without arithmetic, must match exactly.
struct MV {
    long double v = 0, m = 0;
    bool ex = true;
    MV() = default;
    template <class N, class = std::enable_if_t<std::is_arithmetic_v<N>>>
    MV(N x) : v(x), m(std::fabs((long double)x)), ex(true)
    {
    }
    MV(long double v, long double m, bool ex) : v(v), m(m), ex(ex) {}
    friend MV operator+(MV a, MV b) { return {a.v + b.v, a.m + b.m, false}; }
    friend MV operator-(MV a, MV b) { return {a.v - b.v, a.m + b.m, false}; }
    friend MV operator*(MV a, MV b) { return {a.v * b.v, a.m * b.m, false}; }
    friend MV operator/(MV a, MV b)
    {
        return {a.v / b.v, (a.m + std::fabs(a.v / b.v) * b.m) / std::fabs(b.v), false};
    }
    MV operator-() const { return {-v, m, ex}; }
};
// below this, underflow in a factor may have been amplified by the rest of the expression
template <class T>
constexpr T floor_of()
{
    return std::numeric_limits<T>::min() * (sizeof(T) > 4 ? (T)1152921504606846976.0 : (T)1048576.0);
}
template <class T>
bool mv_ok(T got, const MV& want, double k = 64)
{
    long double tmax = std::numeric_limits<T>::max();
    if (!(want.m < tmax / 1024)) return true; // not representable comfortably: not judged
    if (want.ex) return got == (T)want.v;
    long double tol = k * std::numeric_limits<T>::epsilon() * want.m +
                      floor_of<T>();
    return std::fabs((long double)got - want.v) <= tol;
}

// How the logical case is laid out in index space: translation, relabelling of directions,
// extra ghost cells, directions along which contents do not vary.
struct Frame {
    int shift[3] = {0, 0, 0};   // by actual direction
    int perm[3] = {0, 1, 2};    // canonical direction -> actual direction
    int extra_ghost = 0;
    int collapse = 0;           // bit mask of canonical directions
    int inv(int a) const
    {
        for (int d = 0; d < 3; d++)
            if (perm[d] == a) return d;
        return a;
    }
    bool trivial() const
    {
        return !shift[0] && !shift[1] && !shift[2] && perm[0] == 0 && perm[1] == 1 && !collapse &&
               !extra_ghost;
    }
};

// contents of an array: pure function of (category, seed, canonical coordinate)
struct Fill {
    int cat = 0;
    uint64_t seed = 0;
};
inline Fill gen_fill(Ctx& c, bool positive = false)
{
    Fill f;
    f.cat = positive ? 100 + c.s.weighted({6, 8, 4, 1}) : c.s.weighted({6, 6, 10, 6, 4, 2, 2, 1, 1, 1});
    f.seed = c.s.draw(1u << 20);
    return f;
}
inline double fill_value(const Fill& f, long x, long y, long z, long w)
{
    uint64_t h = mix(mix(mix(f.seed, (uint64_t)x), (uint64_t)y), mix((uint64_t)z, (uint64_t)w));
    double u = (double)(h >> 11) / 9007199254740992.0; // [0,1)
    uint64_t h2 = mix(h);
    switch (f.cat) {
    case 0: // readable linear code, mildly nonlinear so that differences vary
        return (double)(((x * 7 + y * 131 + z * 1709 + w * 29 + (long)(f.seed % 97)) % 2003)) +
               (double)((x * x + y * y * 3 + z * z * 5) % 11) * 0.25;
    case 1: return (double)((int)(h % 9) - 4);
    case 2: return 2 * u - 1;
    case 3: return 0.5 + 1.5 * u;
    case 4: return std::ldexp(2 * u - 1, (int)(h2 % 21) - 10);
    case 5: return h2 % 4 == 0 ? 0.0 : 1.0;
    case 6: return std::ldexp(2 * u - 1, -48); // far below one
    case 7: return std::ldexp(2 * u - 1, 24);
    case 9: return std::ldexp(2 * u - 1, -70); // squares underflow in float
    case 8: return (double)(int)(mix(f.seed) % 7) - 2.5; // the same everywhere
    case 100: return 1.0 + (double)(h % 4);
    case 101: return 0.25 + 1.75 * u;
    case 102: return std::ldexp(0.5 + 0.5 * u, (int)(h2 % 11) - 5);
    case 103: return 0.75 + (double)(mix(f.seed) % 5);
    }
    return 0;
}

inline void strict_oob(const char* what, const std::string& n)
{
    if (std::getenv("PBT_STRICT")) {
        std::fprintf(stderr, "HARNESS: %s outside field %s\n", what, n.c_str());
        std::abort();
    }
    throw Discard{};
}

template <class T>
struct Field {
    std::string name;
    int nd = 0;
    int dim[4] = {0, 1, 2, 3}; // storage position (0 = fastest) -> logical dimension
    int lo[4] = {0, 0, 0, 0}, hi[4] = {0, 0, 0, 0};
    long str[4] = {0, 0, 0, 0};
    long n = 1;
    int facedir = -1; // face-centred arrays: the direction they belong to
    bool wstencil = false; // logical dim 3 enumerates stencil entries 0, 1+2a (low), 2+2a (high)
    Frame fr;
    std::vector<T> init;
    std::vector<uint8_t> fl; // 1: read by model, 2: written by model
    std::vector<MV> out;
    static constexpr long G = PBT_SAN ? 0 : 64;
    T* base = nullptr;

    Field() = default;
    Field(const Field&) = delete;
    ~Field() { std::free(base); }

    void layout()
    {
        n = 1;
        for (int p = 0; p < nd; p++) {
            int d = dim[p];
            str[d] = n;
            n *= (long)hi[d] - lo[d] + 1;
        }
        if (n <= 0 || n > 40000000) throw Discard{};
        init.assign(n, T{});
        fl.assign(n, 0);
    }
    bool inside(const int* c, int w = 0) const
    {
        for (int p = 0; p < nd; p++) {
            int d = dim[p];
            int x = d == 3 ? w : c[d];
            if (x < lo[d] || x > hi[d]) return false;
        }
        return true;
    }
    long idx(const int* c, int w = 0) const
    {
        long o = 0;
        for (int p = 0; p < nd; p++) {
            int d = dim[p];
            int x = d == 3 ? w : c[d];
            if (x < lo[d] || x > hi[d]) strict_oob("model access", name);
            o += str[d] * ((long)x - lo[d]);
        }
        return o;
    }
    void coord(long i, int* c, int& w) const
    {
        c[0] = c[1] = c[2] = 0;
        w = 0;
        for (int p = 0; p < nd; p++) {
            int d = dim[p];
            long e = (long)hi[d] - lo[d] + 1;
            int x = (int)(i % e) + lo[d];
            i /= e;
            if (d == 3)
                w = x;
            else
                c[d] = x;
        }
    }
    std::string where(long i) const
    {
        int c[3], w;
        coord(i, c, w);
        std::string s = name + "(";
        bool first = true;
        for (int d = 0; d < 4; d++) {
            bool used = false;
            for (int p = 0; p < nd; p++) used |= dim[p] == d;
            if (!used) continue;
            s += (first ? "" : ",") + std::string(1, "ijkw"[d]) + "=" +
                 std::to_string(d == 3 ? w : c[d]);
            first = false;
        }
        return s + ")";
    }
    void fill(const Fill& f)
    {
        for (long i = 0; i < n; i++) {
            int c[3], w;
            coord(i, c, w);
            long x[3];
            for (int d = 0; d < 3; d++)
                x[d] = (fr.collapse >> d & 1) ? 0 : (long)c[fr.perm[d]] - fr.shift[fr.perm[d]];
            int cw = w;
            if (wstencil && w > 0) cw = 1 + 2 * fr.inv((w - 1) / 2) + (w - 1) % 2;
            init[i] = (T)fill_value(f, x[0], x[1], x[2], cw);
            if (f.cat == 9 && sizeof(T) > 4) init[i] = std::ldexp(init[i], -475); // and in double
        }
    }
    // reference-side access
    MV rd(const int* c, int w = 0)
    {
        long i = idx(c, w);
        if (fl[i] & 2) return out[i];
        fl[i] |= 1;
        return MV(init[i]);
    }
    void wr(const int* c, int w, MV v)
    {
        long i = idx(c, w);
        if (out.empty()) out.resize(n);
        fl[i] |= 2;
        out[i] = v;
    }
    void wr(const int* c, MV v) { wr(c, 0, v); }
    // every cell the model did not read gets a canary: large and finite, or not a number
    void poison(bool nan = false)
    {
        for (long i = 0; i < n; i++)
            if (!(fl[i] & 1))
                init[i] = nan ? std::numeric_limits<T>::quiet_NaN() : (T)(std::ldexp(1.0 + (double)(mix((uint64_t)i) % 1000) / 1000.0, 110));
    }
    // fresh copy handed to the code under test
    T* reset()
    {
        if (!base) base = (T*)std::malloc(sizeof(T) * (n + 2 * G));
        for (long g = 0; g < G; g++)
            base[g] = base[G + n + g] = (T)(-std::ldexp(1.0 + g / 128.0, 112));
        std::memcpy(base + G, init.data(), sizeof(T) * n);
        return base + G;
    }
    T* ptr() { return base + G; }
    T get(const int* c, int w = 0) const { return base[G + idx(c, w)]; }
    // result against model; everything not written by the model must keep its bits
    void check(const char* impl, double k = 64)
    {
        for (long g = 0; g < G; g++) {
            T want = (T)(-std::ldexp(1.0 + g / 128.0, 112));
            if (base[g] != want || base[G + n + g] != want)
                fail(impl, ": write outside the storage of ", name);
        }
        for (long i = 0; i < n; i++) {
            T got = base[G + i];
            if (fl[i] & 2) {
                if (!mv_ok(got, out[i], k))
                    fail(impl, ": ", where(i), " = ", got, ", expected ", (double)out[i].v);
            } else if (std::memcmp(&got, &init[i], sizeof(T)) != 0)
                fail(impl, ": ", where(i), " changed from ", init[i], " to ", got,
                     " although it must keep its value");
        }
    }
};

inline void use_threads(int t) { omp_set_num_threads(t < 1 ? 1 : t); }
inline int gen_threads(Ctx& c)
{
    int t = 1;
    switch (c.s.weighted({10, 6, 3, 1})) {
    case 1: t = 2; break;
    case 2: t = (int)c.s.range(3, 8); break;
    case 3: t = (int)c.s.range(9, 16); break;
    }
    use_threads(t);
    return t;
}
} // namespace pbt
