// I04: windows over coefficient arrays, reached through the array interface.
#include "md_device_span.hpp"
#include "walk.hpp"

template <class... B>
struct Order {};

inline int dir(Ib*) { return 0; }
inline int dir(Jb*) { return 1; }
inline int dir(Kb*) { return 2; }

// storage order S (slowest first, coefficients last), domain order D
template <class T, class... S, class... D>
void window(Ctx& c, Order<S...>, Order<D...>)
{
    Src& s = c.s;
    constexpr int N = sizeof...(S);
    int sd[] = {dir((S*)0)...}, dd[] = {dir((D*)0)...};
    int lo[3], hi[3], st[3] = {1, 1, 1}, alo[3], n[3], ext[3];
    const int g = s.weighted({4, 3, 2, 1}), w = (int)s.range(1, s.chance(1, 8) ? 30 : 5);
    const int R = s.pick({6, 40, 100000});
    long cells = 1, all = w;
    c.note("window, storage ");
    for (int q = 0; q < N; q++) {
        const int d = sd[q];
        const int e = (int)s.range(1, s.chance(1, 12) ? 12 : 5);
        if (s.chance(1, 3)) st[d] = (int)s.range(2, 4);
        lo[d] = (int)s.around(-R, R, 0);
        hi[d] = lo[d] + (e - 1) * st[d] + (int)s.draw(st[d]);
        alo[d] = lo[d] - (int)s.draw(3);
        const int ahi = hi[d] + (int)s.draw(3);
        ext[d] = ahi - alo[d] + 1 + 2 * g;
        n[d] = e;
        cells *= e, all *= ext[d];
        c.note("ijk"[d], "=[", lo[d], ",", hi[d], "]/", st[d], " of [", alo[d], ",", ahi, "] ");
    }
    c.note("ghost ", g, ", ", w, " coefficients, domain order ");
    for (int d : dd) c.note("ijk"[d]);
    if (cells > 6000 || all > 2000000) throw Discard{};
    std::vector<T> v(all);
    for (long i = 0; i < all; i++) v[i] = (T)i;
    auto full = [&](auto* b) {
        const int d = dir(b);
        return std::decay_t<decltype(*b)>{alo[d], alo[d] + ext[d] - 1 - 2 * g};
    };
    auto part = [&](auto* b) {
        const int d = dir(b);
        return std::decay_t<decltype(*b)>{lo[d], hi[d], st[d]};
    };
    auto A = make_md_span(v.data(), g, full((S*)0)..., Wb{0, w - 1});
    const int k = (int)s.draw(w);
    std::vector<long> want;
    for (long p = 0; p < cells; p++) {
        int x[3];
        long r = p;
        for (int q = N - 1; q >= 0; q--) x[dd[q]] = lo[dd[q]] + (int)(r % n[dd[q]]) * st[dd[q]], r /= n[dd[q]];
        long o = 0;
        for (int q = 0; q < N; q++) o = o * ext[sd[q]] + x[sd[q]] - alo[sd[q]] + g;
        want.push_back(o * w + k);
    }
    c.label(cat("window over ", N, " directions", std::is_same_v<Order<S...>, Order<D...>> ? "" : ", reordered"));
    walk(c, A.window()(part((D*)0)...), want, [k](auto&& p) { return (long)p[k]; }, "window traversal");
}
template <class T>
void any(Ctx& c)
{
    switch (c.s.draw(9)) {
    case 0: return window<T>(c, Order<Ib>(), Order<Ib>());
    case 1: return window<T>(c, Order<Jb, Ib>(), Order<Jb, Ib>());
    case 2: return window<T>(c, Order<Jb, Ib>(), Order<Ib, Jb>());
    case 3: return window<T>(c, Order<Kb, Jb, Ib>(), Order<Kb, Jb, Ib>());
    case 4: return window<T>(c, Order<Kb, Jb, Ib>(), Order<Ib, Jb, Kb>());
    case 5: return window<T>(c, Order<Ib, Kb, Jb>(), Order<Kb, Jb, Ib>());
    case 6: return window<T>(c, Order<Jb, Ib, Kb>(), Order<Kb, Jb, Ib>());
    case 7: return window<T>(c, Order<Kb, Ib>(), Order<Ib, Kb>());
    default: return window<T>(c, Order<Kb>(), Order<Kb>());
    }
}
PROP(I04w)
{
    if (c.s.flip()) any<double>(c); else any<int>(c);
}
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
