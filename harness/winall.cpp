// I09: the window over a whole coefficient array.
#include "md_device_span.hpp"
#include "window_iterator.hpp"
#include "walk.hpp"
#include <omp.h>
#include <thrust/for_each.h>

struct Scale {
    int mul, w;
    template <class P>
    void operator()(P&& p) const
    {
        for (int q = 0; q < w; q++) p[q] = p[q] * mul;
    }
};
template <class B>
B full(const int* lo, const int* n, int& p)
{
    const int q = p++;
    return B{lo[q], lo[q] + n[q] - 1};
}
template <class T, class... S>
void whole(Ctx& c)
{
    Src& s = c.s;
    constexpr int N = sizeof...(S);
    const int g = s.weighted({4, 3, 2, 1}), w = (int)s.range(1, s.chance(1, 8) ? 30 : 5);
    int lo[N], n[N];
    long cells = 1;
    c.note("whole window, ", N, " directions, ghost ", g, ", ", w, " coefficients:");
    for (int q = 0; q < N; q++) {
        lo[q] = (int)s.around(-40, 40, 0);
        n[q] = (int)s.range(1, s.chance(1, 12) ? 40 : 6);
        cells *= n[q] + 2 * g;
        c.note(" [", lo[q], ",", lo[q] + n[q] - 1, "]");
    }
    if (cells > 6000) throw Discard{};
    std::vector<T> v(cells * w + 2), u;
    for (size_t i = 0; i < v.size(); i++) v[i] = (T)(int)i;
    u = v;
    int p = 0;
    auto A = [&] {
        std::tuple<S...> b{full<S>(lo, n, p)...};
        return std::apply([&](auto... x) { return make_md_span(v.data() + 1, g, x..., Wb{0, w - 1}); }, b);
    }();
    const int k = (int)s.draw(w), mul = (int)s.range(2, 4), how = (int)s.draw(3);
    if (how == 0) {
        std::vector<long> want;
        for (long i = 0; i < cells; i++) want.push_back(1 + i * w + k);
        walk(c, window(A), want, [k](auto&& x) { return (long)x[k]; }, "window over the whole array");
        return;
    }
    if (cells >= 2) c.nontrivial = true;
    c.note(how == 1 ? " scaled by for_each" : " scaled one by one");
    omp_set_num_threads(1 + s.weighted({6, 4, 2, 1}));
    auto it = window(A);
    if (how == 1)
        thrust::for_each_n(it, cells, Scale{mul, w});
    else
        for (long i = 0; i < cells; i++, ++it) Scale{mul, w}(*it);
    for (size_t i = 0; i < v.size(); i++) {
        const T want = i == 0 || i + 1 == v.size() ? u[i] : u[i] * mul;
        if (v[i] != want) fail("entry ", i, " of ", v.size(), " is ", v[i], ", expected ", want);
    }
}
template <class T>
void any(Ctx& c)
{
    switch (c.s.draw(5)) {
    case 0: return whole<T, Ib>(c);
    case 1: return whole<T, Jb, Ib>(c);
    case 2: return whole<T, Kb, Jb, Ib>(c);
    case 3: return whole<T, Ib, Kb>(c);
    default: return whole<T, Ib, Kb, Jb>(c);
    }
}
PROP(I09w)
{
    if (c.s.flip()) any<double>(c); else any<float>(c);
}
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
