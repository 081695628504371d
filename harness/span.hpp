// Runtime of the generated lazy-array programs (see span_gen.py): logical arrays, domains,
// model evaluation and the comparison of whole memory.
#pragma once
#include "../engine/field.hpp"
#include "md_device_span.hpp"

namespace sp
{
using namespace pbt;
struct P3 {
    int p[4];
    operator const int*() const { return p; }
};
inline P3 at(const int* x, int dx, int dy, int dz) { return {{x[0] + dx, x[1] + dy, x[2] + dz, x[3]}}; }
inline P3 at(const int* x, const int* o) { return {{x[0] + o[0], x[1] + o[1], x[2] + o[2], x[3]}}; }
inline int fdiv(int a, int b) { return a / b - (a % b < 0); }

// index ranges by logical direction 0=i 1=j 2=k 3=w; unused directions are [0,0]
struct Dom {
    bool has[4] = {false, false, false, false};
    int lo[4] = {0, 0, 0, 0}, hi[4] = {0, 0, 0, 0}, st[4] = {1, 1, 1, 1};
    template <class F>
    void each(F f) const
    {
        int x[4];
        for (x[3] = lo[3]; x[3] <= hi[3]; x[3] += st[3])
        for (x[2] = lo[2]; x[2] <= hi[2]; x[2] += st[2])
            for (x[1] = lo[1]; x[1] <= hi[1]; x[1] += st[1])
                for (x[0] = lo[0]; x[0] <= hi[0]; x[0] += st[0]) f(x);
    }
    long cells() const
    {
        long n = 1;
        for (int d = 0; d < 4; d++) n *= (hi[d] - lo[d]) / st[d] + 1;
        return n;
    }
    Ib i() const { return Ib{lo[0], hi[0], st[0]}; }
    Jb j() const { return Jb{lo[1], hi[1], st[1]}; }
    Kb k() const { return Kb{lo[2], hi[2], st[2]}; }
    Wb w() const { return Wb{lo[3], hi[3], st[3]}; }
};

template <class T>
struct Sp {
    Field<T> f;
    int g = 0;
    int blo[4], bhi[4], bst[4] = {1, 1, 1, 1};
    int wlo = 0, wn = 0;
    bool full = false; // w is a direction like the others, not a list of coefficients
    T* p() { return f.ptr(); }
    const T* cp() { return f.ptr(); }
    Ib i() const { return Ib{blo[0], bhi[0], bst[0]}; }
    Jb j() const { return Jb{blo[1], bhi[1], bst[1]}; }
    Kb k() const { return Kb{blo[2], bhi[2], bst[2]}; }
    Wb w() const { return full ? Wb{blo[3], bhi[3], bst[3]} : Wb{wlo, wlo + wn - 1}; }
    MV rd(const int* x, int w = 0) { return f.rd(x, full ? x[3] : w); }
    void wr(const int* x, MV v) { f.wr(x, full ? x[3] : 0, v); }
    void wr(const int* x, int w, MV v) { f.wr(x, w, v); }
};

struct Hooks {
    std::function<void(bool)> poison;
    std::function<void()> reset;
    std::function<void(double)> check;
    std::function<void(std::vector<unsigned char>&)> grab;
};

struct Opt { // how a span relates to the domain
    int mlo[4] = {0, 0, 0, 0}, mhi[4] = {0, 0, 0, 0};
    bool ghost = false, positive = false, exact = false, strided = false;
    int w = 0;
};

// thread-count comparison: a fixed number of threads, memory collected instead of judged
struct Forced {
    int threads = 0;
    std::vector<unsigned char> bytes;
};
inline Forced& forced()
{
    static Forced f;
    return f;
}

struct Env {
    Ctx& c;
    Dom d;
    std::vector<Hooks> hooks;
    bool floats = false;
    // steps: which directions may be strided; line: the only direction with more than one cell (-1: none)
    Env(Ctx& c, const char* text, std::initializer_list<int> dims, int steps, int line = -1) : c(c)
    {
        Src& s = c.s;
        c.note(text, " | domain");
        for (int x : dims) d.has[x] = true;
        int mode = s.weighted({180, 90, 30, 1});
        long left = mode == 3 ? 80000 : mode == 2 ? 9000 : 800;
        int R = s.pick({6, 40, 40, 100000, 6, 50000000});
        int wide = (int)s.draw(dims.size());
        int q = 0;
        bool stepped = false;
        for (int x : dims) {
            long m = mode == 0 ? 5 : mode == 1 ? 11 : q == wide ? (mode == 3 ? 70000 : 3000) : mode == 3 ? 300 : 6;
            if (line >= 0) m = x == line ? (mode == 0 ? 9 : mode == 1 ? 40 : mode == 2 ? 400 : 70000) : 1;
            m = std::max(1l, std::min(m, left));
            int n = (int)s.range(1, m);
            left /= n;
            if ((steps >> x & 1) && s.chance(2, 5)) d.st[x] = s.chance(1, 6) ? (int)s.range(5, 9) : (int)s.range(2, 4), stepped = true;
            d.lo[x] = (int)s.around(-R, R, 0);
            d.hi[x] = d.lo[x] + (n - 1) * d.st[x] + (d.st[x] > 1 ? (int)s.draw(d.st[x]) : 0);
            c.note(" ", "ijkw"[x], "=[", d.lo[x], ",", d.hi[x], "]", d.st[x] > 1 ? cat("/", d.st[x]) : "");
            q++;
        }
        if (stepped) c.label("stepped domain");
        c.label(cat(dims.size(), " dimensions"));
        if (d.cells() >= 2) c.nontrivial = true;
    }
    // sometimes leave nothing of the domain: one or more directions end before they begin
    void trim()
    {
        Src& s = c.s;
        if (!s.chance(1, 40)) return;
        int n = 0;
        for (int x = 0; x < 4; x++)
            if (d.has[x] && s.flip()) d.hi[x] = d.lo[x] - 1 - (int)s.draw(5), n++;
        if (!n) return;
        c.label(cat("domain reversed in ", n, " directions"));
        for (int x = 0; x < 4; x++)
            if (d.has[x]) c.note(" now ", "ijkw"[x], "=[", d.lo[x], ",", d.hi[x], "]");
        c.nontrivial = false;
    }
    template <class T>
    void span(Sp<T>& s, const char* name, std::initializer_list<int> order, const Opt& o)
    {
        int lo[4] = {0, 0, 0, 0}, hi[4] = {0, 0, 0, 0};
        for (int x : order)
            if (x < 3 || !o.w) lo[x] = d.lo[x] - o.mlo[x], hi[x] = d.hi[x] + o.mhi[x];
        place(s, name, order, o, lo, hi);
    }
    // array holding at least [lo,hi]
    template <class T>
    void place(Sp<T>& s, const char* name, std::initializer_list<int> order, const Opt& o, const int* lo, const int* hi)
    {
        Src& r = c.s;
        floats |= std::is_same_v<T, float>;
        Field<T>& f = s.f;
        f.name = name;
        f.nd = (int)order.size();
        int p = f.nd;
        int gmax = 7;
        if (o.exact)
            for (int x : order)
                if (x < 3 || !o.w) gmax = std::min(gmax, (hi[x] - lo[x]) / 2);
        s.g = o.ghost ? std::min(gmax, r.weighted({4, 12, 8, 4, 1, 1, 1, 1})) : 0;
        c.note("; ", name, s.g ? cat(" ghost ", s.g) : "");
        for (int x : order) {
            f.dim[--p] = x;
            if (x == 3 && !o.w) s.full = true;
            if (x == 3 && o.w) {
                s.wn = o.w;
                s.wlo = (int)r.pick({0, 1, -2});
                f.lo[3] = 0;
                f.hi[3] = o.w - 1;
                continue;
            }
            int a = lo[x], b = hi[x];
            if (!o.exact) a -= r.weighted({4, 2, 1, 1}), b += r.weighted({4, 2, 1, 1});
            const int g = x < 3 ? s.g : 0; // ghost layers are in space only
            s.blo[x] = a + g;
            s.bhi[x] = b - g;
            if (s.bhi[x] < s.blo[x]) s.bhi[x] = s.blo[x], b = s.bhi[x] + g;
            f.lo[x] = a, f.hi[x] = b;
            if (o.strided && r.flip()) s.bst[x] = (int)r.range(2, 3); // a span always has unit stride
            c.note(" ", "ijkw"[x], "=[", a, ",", b, "]");
        }
        f.layout();
        Fill fl = gen_fill(c, o.positive);
        if (fl.cat == 9 && floats) fl.cat = 6; // products of single precision operands would underflow
        f.fill(fl);
        reg(s);
    }
    template <class T>
    void reg(Sp<T>& s)
    {
        Sp<T>* q = &s;
        hooks.push_back({[q](bool nan) { q->f.poison(nan); }, [q] { q->f.reset(); },
                         [q, this](double k) {
                             if (std::is_same_v<T, double> && floats) k *= 536870912.0;
                             q->f.check("lazy assignment", k);
                         },
                         [q](std::vector<unsigned char>& o) {
                             auto* b = (unsigned char*)q->f.base;
                             o.insert(o.end(), b, b + (q->f.n + 2 * Field<T>::G) * sizeof(T));
                         }});
    }
    double num()
    {
        static const double t[] = {2, 3, 0.5, -1.5, 1, -2, 0.25, 7, -0.75, 1.25, 10, -3.5, 0.1, -1.0 / 3, 1e-4, 12345.678};
        return t[c.s.draw(16)];
    }
    double pnum() { return std::fabs(num()); }
    int inum()
    {
        static const int t[] = {2, 3, 1, -1, 5, -2, 4, 7};
        return t[c.s.draw(8)];
    }
    long lnum() // also numbers that no int holds
    {
        static const long t[] = {2, -3, 1, 5, 3000000000l, -5000000001l, 4294967297l};
        return t[c.s.draw(7)];
    }
    long lpnum() { return std::labs(lnum()); }
    int ipnum() { return std::abs(inum()); }
    int shift(int lo, int hi) { return (int)c.s.around(lo, hi, 1); }
    void ready()
    {
        const bool nan = c.s.chance(1, 4); // what cells hold that no formula names
        if (nan) c.label("cells not read hold not-a-number");
        for (auto& h : hooks) h.poison(nan);
        for (auto& h : hooks) h.reset();
        if (forced().threads) {
            use_threads(forced().threads);
            return;
        }
        int t = gen_threads(c);
        if (t > 1) c.label("several threads");
    }
    void check()
    {
        if (forced().threads) {
            for (auto& h : hooks) h.grab(forced().bytes);
            return;
        }
        for (auto& h : hooks) h.check(64);
    }
};

// same logical array stored in another order
template <class T>
void mirror(Sp<T>& b, Sp<T>& a, std::initializer_list<int> order)
{
    b.g = a.g, b.wlo = a.wlo, b.wn = a.wn, b.full = a.full;
    for (int x = 0; x < 4; x++) b.blo[x] = a.blo[x], b.bhi[x] = a.bhi[x], b.bst[x] = a.bst[x];
    b.f.name = a.f.name + "'";
    b.f.nd = a.f.nd;
    int p = b.f.nd;
    for (int x : order) b.f.dim[--p] = x;
    for (int x = 0; x < 4; x++) b.f.lo[x] = a.f.lo[x], b.f.hi[x] = a.f.hi[x];
    b.f.layout();
    for (long i = 0; i < a.f.n; i++) {
        int x[3], w;
        a.f.coord(i, x, w);
        b.f.init[b.f.idx(x, w)] = a.f.init[i];
    }
    b.f.reset();
}
template <class T>
void same(Sp<T>& b, Sp<T>& a)
{
    for (long g = 0; g < Field<T>::G; g++) {
        T want = (T)(-std::ldexp(1.0 + g / 128.0, 112));
        if (b.f.base[g] != want || b.f.base[Field<T>::G + b.f.n + g] != want) fail("write outside the storage of ", b.f.name);
    }
    for (long i = 0; i < a.f.n; i++) {
        int x[3], w;
        a.f.coord(i, x, w);
        T u = a.f.base[Field<T>::G + i], v = b.f.get(x, w);
        if (std::memcmp(&u, &v, sizeof(T)) != 0)
            fail("results differ between the two orders: ", a.f.where(i), " = ", u, " and ", b.f.where(b.f.idx(x, w)), " = ", v);
    }
}

struct Program {
    const char* text;
    void (*run)(Ctx&);
};
std::vector<std::pair<int, Program>>& programs();
struct AddProgram {
    AddProgram(int id, const char* t, void (*f)(Ctx&)) { programs().push_back({id, {t, f}}); }
};
inline void run_any(Ctx& c)
{
    auto& p = programs();
    static bool sorted = (std::sort(p.begin(), p.end(), [](auto& a, auto& b) { return a.first < b.first; }), true);
    (void)sorted;
    p[c.s.draw(p.size())].second.run(c);
}
} // namespace sp
