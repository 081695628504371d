// I01..I08, I10: index arithmetic and iterators against reference enumerations.
#include "../engine/pbt.hpp"
#include <algorithm>
#include <array>
#include <climits>
#include <functional>
#include <cmath>
#include <omp.h>
#include <thrust/copy.h>
#include <thrust/device_ptr.h>
#include <thrust/execution_policy.h>
#include <thrust/for_each.h>
#include <thrust/iterator/counting_iterator.h>
#include <thrust/transform.h>

#include "coarse_to_fine_iterator.hpp"
#include "forward_stencil_iterator.hpp"
#include "matrix_traversal_iterator.hpp"
#include "md_bounds.hpp"
#include "offset_iterator.hpp"
#include "submatrix_iterator.hpp"
#include "transpose_iterator.hpp"
#include "walk.hpp"

using namespace pbt;

template <int N>
std::string arr(const int (&a)[N])
{
    std::string s = "(";
    for (int i = 0; i < N; i++) s += (i ? "," : "") + std::to_string(a[i]);
    return s + ")";
}
inline void threads(Ctx& c) { omp_set_num_threads(1 + c.s.weighted({6, 4, 2, 1})); }
template <class F>
void with_n(int n, F&& f)
{
    switch (n) {
    case 1: f(std::integral_constant<int, 1>()); break;
    case 2: f(std::integral_constant<int, 2>()); break;
    case 3: f(std::integral_constant<int, 3>()); break;
    case 4: f(std::integral_constant<int, 4>()); break;
    case 5: f(std::integral_constant<int, 5>()); break;
    }
}
template <int N, class F, int I = 0>
void with_i(int i, F&& f)
{
    if constexpr (I < N) {
        if (i == I)
            f(std::integral_constant<int, I>());
        else
            with_i<N, F, I + 1>(i, std::forward<F>(f));
    }
}
template <int N>
long product(const int (&a)[N])
{
    long p = 1;
    for (int x : a) p *= x;
    return p;
}
template <int N>
void gen_shape(Ctx& c, int (&sz)[N], long cap)
{
    int mode = c.s.weighted({6, 3, 1});
    long left = cap;
    for (int i = 0; i < N; i++) {
        long m = mode == 0 ? 5 : mode == 1 ? 12 : 5000;
        m = std::max(1l, std::min(m, left));
        sz[i] = (int)c.s.range(1, m);
        left /= sz[i];
    }
}
// reference row-major enumeration
template <int N>
bool next(int (&x)[N], const int (&n)[N])
{
    for (int i = N - 1; i >= 0; i--) {
        if (++x[i] < n[i]) return true;
        x[i] = 0;
    }
    return false;
}
template <int N>
long lin(const int (&x)[N], const int (&sz)[N])
{
    long t = 0;
    for (int i = 0; i < N; i++) t = t * sz[i] + x[i];
    return t;
}

// extents whose product stays within left
template <int N>
void gen_wide(Ctx& c, int (&sz)[N], long left)
{
    Src& s = c.s;
    int flat = s.weighted({4, 1});
    int pos[N];
    for (int i = 0; i < N; i++) pos[i] = i;
    for (int i = N - 1; i > 0; i--) std::swap(pos[i], pos[s.draw(i + 1)]);
    for (int k = 0; k < N; k++) {
        long m = left;
        if (k + 1 < N && !s.chance(1, 6)) m = std::max(1l, (long)std::pow((double)left, 1.6 / (N - k)));
        m = std::min(m, flat ? left : std::max(1l, m));
        if (s.chance(1, 6)) m = 1;
        sz[pos[k]] = (int)s.range(1, std::max(1l, m));
        left /= sz[pos[k]];
    }
}
// reference coordinate of a linear index
template <int N>
void coord(long idx, const int (&sz)[N], int (&x)[N])
{
    for (int i = N - 1; i >= 0; i--) x[i] = (int)(idx % sz[i]), idx /= sz[i];
}
// a wanted sequence too long to store
template <class K>
struct Lazy {
    long n;
    std::function<K(long)> at;
    size_t size() const { return (size_t)n; }
    K operator[](long i) const { return at(i); }
};

// ------------------------------------------------------------------ I01
#ifndef PBT_REDUCED
template <int N>
void i01(Ctx& c)
{
    Src& s = c.s;
    int sz[N];
    gen_wide(c, sz, s.weighted({3, 1}) ? INT_MAX : 20000);
    long total = product(sz);
    c.note("shape ", arr(sz));
    c.label(cat(N, " dimensions"));
    if (total > 100000) c.label("more than 100000 elements");
    if (total > 1) c.nontrivial = true;
    // strides
    int stm[N], all[N];
    for (int i = 0; i < N; i++) stm[i] = (int)s.range(1, 4);
    stride_from_size<N>(sz, all);
    auto stride = [&](auto I, int step) {
        constexpr int i = decltype(I)::value;
        long want = 1;
        for (int j = i + 1; j < N; j++) want *= sz[j];
        if (stride_dim<i, N>(sz) != want) fail("stride_dim<", i, "> of ", arr(sz), " is ", stride_dim<i, N>(sz), ", expected ", want);
        if (stride_dim<N>(sz, i) != want) fail("stride_dim(sz,", i, ") of ", arr(sz), " is ", stride_dim<N>(sz, i), ", expected ", want);
        if (i >= 0) {
            constexpr int q = i < 0 ? 0 : i;
            if (all[q] != want) fail("stride_from_size of ", arr(sz), " entry ", i, " is ", all[q], ", expected ", want);
            if (want * stm[q] <= INT_MAX) {
                int got = stride_dim<q, N>(sz, stm);
                if (got != want * stm[q])
                    fail("stride_dim<", i, "> of ", arr(sz), " with steps ", arr(stm), " is ", got, ", expected ", want * stm[q]);
            }
        }
    };
    stride(std::integral_constant<int, -1>(), 0);
    for (int i = 0; i < N; i++) with_i<N>(i, [&](auto I) { stride(I, 0); });
    // maps
    auto one = [&](long idx) {
        int x[N], want[N];
        long r = idx;
        for (int i = N - 1; i >= 0; i--) want[i] = (int)(r % sz[i]), r /= sz[i];
        for (int i = 0; i < N; i++) x[i] = -77;
        unravel<N>(sz, (int)idx, x);
        if (idx < total && !std::equal(x, x + N, want))
            fail("unravel of ", idx, " in ", arr(sz), " is ", arr(x), ", expected ", arr(want));
        long back = ravel<N>(sz, x);
        if (back != idx) fail("index ", idx, " of ", arr(sz), " unravels to ", arr(x), " which ravels to ", back);
        if (idx < total && ravel<N>(sz, want) != idx) fail("ravel of ", arr(want), " in ", arr(sz), " is ", ravel<N>(sz, want), ", expected ", idx);
        if (idx == total) {
            // its own coordinate: not that of any element
            bool in = true;
            for (int i = 0; i < N; i++) in &= x[i] >= 0 && x[i] < sz[i];
            if (in) fail("the end index ", idx, " of ", arr(sz), " unravels to the element coordinate ", arr(x));
        }
    };
    if (total < INT_MAX) one(total);
    if (total <= 400)
        for (long i = 0; i < total; i++) one(i);
    else {
        one(0);
        one(total - 1);
        for (int k = 0; k < 40; k++) {
            long i = (long)s.draw((uint64_t)total);
            one(i);
            if (k % 4 == 0) { // start or end of a row of some dimension
                int d = (int)s.draw(N);
                long st = 1;
                for (int j = d + 1; j < N; j++) st *= sz[j];
                one(i / st * st);
                if (i / st * st > 0) one(i / st * st - 1);
            }
        }
    }
}
#endif
PROP(I01)
{
#ifdef PBT_REDUCED
    // without the helpers: the coordinates show in the positions of a traversal of the whole array
    with_n(1 + (int)c.s.draw(5), [&](auto n_) {
        constexpr int N = decltype(n_)::value;
        int sz[N], lb[N], ub[N], stm[N];
        gen_wide(c, sz, INT_MAX);
        for (int i = 0; i < N; i++) lb[i] = 0, ub[i] = sz[i] - 1, stm[i] = 1;
        c.note("shape ", arr(sz));
        long total = product(sz);
        if (total > 1) c.nontrivial = true;
        auto it = make_submatrix(thrust::counting_iterator<long>(0), sz, lb, ub, stm);
        for (int k = 0; k < 40; k++) {
            long i = (long)c.s.draw((uint64_t)total), got = *(it + i);
            if (got != i) fail("position ", i, " of ", arr(sz), " is element ", got);
        }
    });
#else
    with_n(1 + (int)c.s.draw(5), [&](auto n) { i01<decltype(n)::value>(c); });
#endif
}

// ------------------------------------------------------------------ arrays
struct Store {
    std::vector<int> a;
    explicit Store(long n) : a(n + 2 * G)
    {
        for (long i = 0; i < (long)a.size(); i++) a[i] = (int)(i - G);
    }
    static constexpr long G = 16;
    int* ptr() { return a.data() + G; }
    thrust::device_ptr<int> dev() { return thrust::device_ptr<int>(ptr()); }
};

template <int N>
struct Sub {
    int sz[N], lb[N], ub[N], stm[N], n[N];
    std::vector<long> want; // linear indices in order
    static constexpr long HUGE_CAP = -1;
    explicit Sub(Ctx& c, long cap = 3000, bool steps = true)
    {
        Src& s = c.s;
        if (cap == HUGE_CAP)
            gen_wide(c, sz, INT_MAX);
        else
            gen_shape(c, sz, cap);
        for (int i = 0; i < N; i++) {
            int how = s.weighted({2, 3, 1});
            int x = (int)s.draw(sz[i]), y = (int)s.draw(sz[i]);
            if (x > y) std::swap(x, y);
            lb[i] = how == 0 ? 0 : x;
            ub[i] = how == 0 ? sz[i] - 1 : how == 1 ? y : x;
            stm[i] = steps ? 1 + s.weighted({18, 9, 6, 3, 3, 1, 1, 1, 1, 1}) : 1;
            if (cap == HUGE_CAP) {
                long st = 1;
                for (int j = i + 1; j < N; j++) st *= sz[j];
                if (st * stm[i] > INT_MAX) stm[i] = 1;
            }
            n[i] = 0;
            if (cap == HUGE_CAP)
                n[i] = (ub[i] - lb[i]) / stm[i] + 1;
            else
                for (int q = lb[i]; q <= ub[i]; q += stm[i]) n[i]++;
        }
        if (cap == HUGE_CAP) return;
        int x[N] = {};
        do {
            int y[N];
            for (int i = 0; i < N; i++) y[i] = lb[i] + x[i] * stm[i];
            want.push_back(lin(y, sz));
        } while (next(x, n));
    }
    // element at a position of the traversal
    long at(const int (&x)[N]) const
    {
        int y[N];
        for (int i = 0; i < N; i++) y[i] = lb[i] + x[i] * stm[i];
        return lin(y, sz);
    }
    Lazy<long> lazy(long mul = 1, long add = 0) const
    {
        Sub S = *this;
        return {product(n), [=](long p) {
                    int x[N];
                    coord(p, S.n, x);
                    return S.at(x) * mul + add;
                }};
    }
    std::string show() const { return cat("array ", arr(sz), " box ", arr(lb), "..", arr(ub), " step ", arr(stm)); }
};

template <class Seq>
void same_seq(const Seq& got, const std::vector<long>& want, const std::string& what)
{
    if (got.size() != want.size()) fail(what, " visits ", got.size(), " elements, expected ", want.size());
    for (size_t i = 0; i < want.size(); i++)
        if (got[i] != want[i]) fail(what, ": position ", i, " is element ", got[i], ", expected ", want[i]);
}
template <class It>
void visit(Ctx& c, It it, const std::vector<long>& want, const std::string& what)
{
    long n = (long)want.size();
    std::vector<long> g(n);
    It x = it;
    for (long i = 0; i < n; i++, ++x) g[i] = (long)*x;
    same_seq(g, want, what + " by increments");
    for (long i = n - 1; i >= 0; i--) {
        --x;
        g[i] = (long)*x;
    }
    same_seq(g, want, what + " backwards from the end");
    for (long i = 0; i < n; i++) g[i] = (long)it[i];
    same_seq(g, want, what + " by subscripts");
    std::vector<int> d(n + 1);
    threads(c);
    thrust::copy_n(it, n, thrust::device_ptr<int>(d.data()));
    for (long i = 0; i < n; i++) g[i] = d[i];
    same_seq(g, want, what + " by a parallel copy");
    thrust::copy(it, it + n, thrust::device_ptr<int>(d.data()));
    for (long i = 0; i < n; i++) g[i] = d[i];
    same_seq(g, want, what + " by a parallel copy of [begin,end)");
}

// ------------------------------------------------------------------ I02
struct Neg {
    template <class R>
    void operator()(R&& r) const
    {
        r = -1000 - (int)r;
    }
};
template <int N>
void i02(Ctx& c)
{
    Sub<N> S(c, c.s.chance(1, 12) ? 20000 : 1500);
    Store st(product(S.sz));
    c.note(S.show());
    c.label(cat(N, " dimensions"));
    if (S.want.size() >= 2) c.nontrivial = true;
    auto it = make_submatrix(st.dev(), S.sz, S.lb, S.ub, S.stm);
    if (it.size() != (int)S.want.size()) fail("size is ", it.size(), ", expected ", S.want.size());
    for (int i = 0; i < N; i++) {
        long w = S.stm[i];
        for (int j = i + 1; j < N; j++) w *= S.sz[j];
        if (it.stride_dim(i) != w) fail("stride_dim(", i, ") is ", it.stride_dim(i), ", expected ", w);
    }
    visit(c, it, S.want, "sub-box");
    {
        auto h = make_submatrix(st.ptr(), S.sz, S.lb, S.ub, S.stm);
        std::vector<long> g;
        for (size_t i = 0; i < S.want.size(); i++, ++h) g.push_back(*h);
        same_seq(g, S.want, "sub-box of a raw pointer");
    }
    Store ref(product(S.sz));
    int how = (int)c.s.draw(3);
    threads(c);
    if (how == 0)
        thrust::for_each_n(it, S.want.size(), Neg{});
    else if (how == 1) {
        auto x = it;
        for (size_t i = 0; i < S.want.size(); i++, ++x) *x = -1000 - (int)S.want[i];
    } else {
        for (size_t i = S.want.size(); i-- > 0;) it[i] = -1000 - (int)S.want[i];
    }
    for (long w : S.want) ref.ptr()[w] = -1000 - (int)w;
    for (size_t i = 0; i < st.a.size(); i++)
        if (st.a[i] != ref.a[i])
            fail("after writing through the traversal element ", (long)i - Store::G, " is ", st.a[i], ", expected ", ref.a[i]);
}
// arrays that exist only as numbers: the element at index i is i
template <class It, class W, class Key>
void spots(Ctx& c, It it, const W& want, Key key, const std::string& what)
{
    Src& s = c.s;
    long n = (long)want.size();
    if (n == 0) return;
    int m = (int)s.range(1, 12);
    for (int i = 0; i < m; i++) {
        long p = s.flip() ? (long)s.draw((uint64_t)n) : n - 1 - (long)s.draw((uint64_t)std::min(n, 100l));
        auto chk = [&](const It& x, long q, const char* how) {
            if (q < n && !(key(*x) == want[q])) fail(what, ", ", how, ": position ", q, " of ", n, " denotes the wrong element");
            if (x - it != q) fail(what, ", ", how, ": distance to position ", q, " of ", n, " is ", x - it);
        };
        It x = it + p;
        chk(x, p, "jump");
        if (!(key(it[p]) == want[p])) fail(what, ": subscript ", p, " of ", n, " is wrong");
        long q = p;
        for (int k = 0; k < 4 && q < n; k++) ++x, ++q, chk(x, q, "stepping on");
        for (int k = 0; k < 7 && q > 0; k++) --x, --q, chk(x, q, "stepping back");
        long t = (long)s.draw((uint64_t)n + 1);
        x += t - q;
        chk(x, t, "second jump");
    }
    if (n >= 2) c.nontrivial = true;
}
inline thrust::counting_iterator<long> numbers() { return thrust::counting_iterator<long>(0); }
static const auto number = [](auto&& r) { return (long)r; };
PROP(I02)
{
    if (c.s.chance(1, 6))
        return with_n(1 + (int)c.s.draw(5), [&](auto n_) {
            constexpr int N = decltype(n_)::value;
            Sub<N> S(c, Sub<N>::HUGE_CAP, true);
            c.note(S.show());
            c.label("large index space");
            auto it = make_submatrix(numbers(), S.sz, S.lb, S.ub, S.stm);
            if (it.size() != product(S.n)) fail("size is ", it.size(), ", expected ", product(S.n));
            spots(c, it, S.lazy(), number, "large sub-box");
        });
    with_n(1 + (int)c.s.draw(5), [&](auto n) { i02<decltype(n)::value>(c); });
}

// ------------------------------------------------------------------ I03
template <int... P>
struct Perm {
    static constexpr int N = sizeof...(P);
    static constexpr int p[N] = {P...};
    template <class It>
    static auto make(It it, const int (&sz)[N])
    {
        return make_transpose<P...>(it, sz);
    }
    static constexpr int inv(int k)
    {
        for (int i = 0; i < N; i++)
            if (p[i] == k) return i;
        return -1;
    }
    template <class Q>
    struct inverse_;
    template <size_t... K>
    struct inverse_<std::index_sequence<K...>> {
        using type = Perm<inv(K)...>;
    };
    using inverse = typename inverse_<std::make_index_sequence<N>>::type;
};
template <class F>
void with_perm(Ctx& c, int n, F&& f)
{
    Src& s = c.s;
    if (n == 1) return f(Perm<0>());
    if (n == 2) return s.flip() ? f(Perm<1, 0>()) : f(Perm<0, 1>());
    if (n == 3) switch (s.draw(6)) {
        case 0: return f(Perm<0, 1, 2>());
        case 1: return f(Perm<0, 2, 1>());
        case 2: return f(Perm<1, 0, 2>());
        case 3: return f(Perm<1, 2, 0>());
        case 4: return f(Perm<2, 0, 1>());
        default: return f(Perm<2, 1, 0>());
        }
    if (n == 4) switch (s.draw(10)) {
        case 0: return f(Perm<0, 1, 2, 3>());
        case 1: return f(Perm<3, 2, 1, 0>());
        case 2: return f(Perm<1, 2, 3, 0>());
        case 3: return f(Perm<3, 0, 1, 2>());
        case 4: return f(Perm<1, 0, 3, 2>());
        case 5: return f(Perm<2, 0, 3, 1>());
        case 6: return f(Perm<0, 2, 1, 3>());
        case 7: return f(Perm<3, 1, 2, 0>());
        case 8: return f(Perm<1, 3, 0, 2>());
        default: return f(Perm<2, 3, 0, 1>());
        }
    switch (s.draw(4)) {
    case 0: return f(Perm<4, 3, 2, 1, 0>());
    case 1: return f(Perm<1, 2, 3, 4, 0>());
    case 2: return f(Perm<2, 0, 4, 1, 3>());
    default: return f(Perm<0, 3, 1, 4, 2>());
    }
}
template <class P>
std::vector<long> transposed_order(const int (&sz)[P::N])
{
    constexpr int N = P::N;
    int n[N], x[N] = {}, y[N];
    for (int i = 0; i < N; i++) n[i] = sz[P::p[i]];
    std::vector<long> w;
    do {
        for (int i = 0; i < N; i++) y[P::p[i]] = x[i];
        w.push_back(lin(y, sz));
    } while (next(x, n));
    return w;
}
template <class P>
Lazy<long> transposed_lazy(const int (&sz)[P::N])
{
    constexpr int N = P::N;
    std::array<int, N> z;
    std::copy(sz, sz + N, z.begin());
    return {product(sz), [z](long p) {
                int n[N], x[N], y[N], q[N];
                for (int i = 0; i < N; i++) n[i] = z[P::p[i]], q[i] = z[i];
                coord(p, n, x);
                for (int i = 0; i < N; i++) y[P::p[i]] = x[i];
                return lin(y, q);
            }};
}
PROP(I03)
{
    int n = 1 + c.s.weighted({1, 4, 6, 4, 3});
    if (c.s.chance(1, 4))
        return with_perm(c, n, [&](auto P_) {
            using P = decltype(P_);
            constexpr int N = P::N;
            int sz[N], tsz[N];
            gen_wide(c, sz, INT_MAX);
            for (int i = 0; i < N; i++) tsz[i] = sz[P::p[i]];
            c.note("array ", arr(sz), " permutation ", arr(P::p));
            c.label("large index space");
            auto it = P::make(numbers(), sz);
            long total = product(sz);
            if (it.size() != total) fail("size is ", it.size(), ", expected ", total);
            spots(c, it, transposed_lazy<P>(sz), number, "large transposed traversal");
            spots(c, P::inverse::make(it, tsz), Lazy<long>{total, [](long p) { return p; }}, number, "permutation followed by its inverse");
        });
    with_perm(c, n, [&](auto P_) {
        using P = decltype(P_);
        constexpr int N = P::N;
        int sz[N];
        gen_shape(c, sz, c.s.chance(1, 12) ? 20000 : 1500);
        Store st(product(sz));
        c.note("array ", arr(sz), " permutation ", arr(P::p));
        c.label(cat(N, " dimensions"));
        auto want = transposed_order<P>(sz);
        if (want.size() >= 2) c.nontrivial = true;
        auto it = P::make(st.dev(), sz);
        if (it.size() != (int)want.size()) fail("size is ", it.size(), ", expected ", want.size());
        visit(c, it, want, "transposed traversal");
        int tsz[N];
        for (int i = 0; i < N; i++) tsz[i] = sz[P::p[i]];
        auto back = P::inverse::make(it, tsz);
        std::vector<long> id(want.size());
        for (size_t i = 0; i < id.size(); i++) id[i] = (long)i;
        visit(c, back, id, "permutation followed by its inverse");
        threads(c);
        thrust::for_each_n(it, want.size(), Neg{});
        for (size_t i = 0; i < st.a.size(); i++) {
            long e = (long)i - Store::G;
            int w = e >= 0 && e < (long)want.size() ? -1000 - (int)e : (int)e;
            if (st.a[i] != w) fail("after writing through the traversal element ", e, " is ", st.a[i], ", expected ", w);
        }
    });
}

// ------------------------------------------------------------------ I04 / I06: position arithmetic
PROP(I04)
{
    int kind = (int)c.s.draw(4);
    auto val = [](auto&& r) { return (long)r; };
#ifdef PBT_REDUCED
    if (kind == 3) kind = 2;
#endif
    if (c.s.chance(1, 8)) {
        c.label("large index space");
        if (kind <= 1)
            with_n(1 + (int)c.s.draw(5), [&](auto n_) {
                constexpr int N = decltype(n_)::value;
                Sub<N> S(c, Sub<N>::HUGE_CAP, kind == 1);
                c.note(S.show());
                walk(c, make_submatrix(numbers(), S.sz, S.lb, S.ub, S.stm), S.lazy(), val, "sub-box");
            });
        else if (kind == 2)
            with_perm(c, 1 + c.s.weighted({1, 4, 6, 4, 3}), [&](auto P_) {
                using P = decltype(P_);
                constexpr int N = P::N;
                int sz[N];
                gen_wide(c, sz, INT_MAX);
                c.note("array ", arr(sz), " permutation ", arr(P::p));
                walk(c, P::make(numbers(), sz), transposed_lazy<P>(sz), val, "transposed traversal");
            });
#ifndef PBT_REDUCED
        else
            with_n(1 + (int)c.s.draw(4), [&](auto n_) {
                constexpr int N = decltype(n_)::value;
                Sub<N + 1> S(c, Sub<N + 1>::HUGE_CAP, true);
                S.lb[N] = 0, S.ub[N] = S.sz[N] - 1, S.stm[N] = 1;
                auto it = detail::make_submatrix_helper<N + 1>(std::make_index_sequence<N>{}, numbers(), S.sz, S.lb, S.ub, S.stm);
                int k = (int)c.s.draw(S.sz[N]);
                c.note("window along the last dimension of ", S.show());
                long total = 1;
                for (int i = 0; i < N; i++) total *= S.n[i];
                Lazy<long> want{total, [S, k](long p) {
                                    int x[N + 1];
                                    for (int i = N - 1; i >= 0; i--) x[i] = (int)(p % S.n[i]), p /= S.n[i];
                                    x[N] = k;
                                    return S.at(x);
                                }};
                walk(c, it, want, [k](auto&& p) { return (long)p[k]; }, "window traversal");
            });
#endif
        return;
    }
    if (kind <= 1)
        with_n(1 + (int)c.s.draw(5), [&](auto n_) {
            constexpr int N = decltype(n_)::value;
            Sub<N> S(c, c.s.chance(1, 12) ? 6000 : 400, kind == 1);
            Store st(product(S.sz));
            c.note(S.show());
            c.label("sub-box");
            walk(c, make_submatrix(st.ptr(), S.sz, S.lb, S.ub, S.stm), S.want, val, "sub-box");
        });
    else if (kind == 2)
        with_perm(c, 1 + c.s.weighted({1, 4, 6, 4, 3}), [&](auto P_) {
            using P = decltype(P_);
            constexpr int N = P::N;
            int sz[N];
            gen_shape(c, sz, c.s.chance(1, 12) ? 6000 : 400);
            Store st(product(sz));
            c.note("array ", arr(sz), " permutation ", arr(P::p));
            c.label("transposed");
            auto want = transposed_order<P>(sz);
            walk(c, P::make(st.ptr(), sz), want, val, "transposed traversal");
        });
#ifndef PBT_REDUCED
    else
        with_n(1 + (int)c.s.draw(3), [&](auto n_) {
            // window: the last dimension holds each position's block
            constexpr int N = decltype(n_)::value;
            Sub<N> S(c, c.s.chance(1, 12) ? 3000 : 400, true);
            int w = (int)c.s.range(1, c.s.chance(1, 8) ? 30 : 5);
            int sz[N + 1], lb[N + 1], ub[N + 1], stm[N + 1];
            for (int i = 0; i < N; i++) sz[i] = S.sz[i], lb[i] = S.lb[i], ub[i] = S.ub[i], stm[i] = S.stm[i];
            sz[N] = w, lb[N] = 0, ub[N] = w - 1, stm[N] = 1;
            Store st(product(sz));
            auto want = S.want;
            for (auto& x : want) x *= w;
            c.note(S.show(), " window ", w);
            c.label("window");
            auto it = detail::make_submatrix_helper<N + 1>(std::make_index_sequence<N>{}, st.ptr(), sz, lb, ub, stm);
            int k = (int)c.s.draw(w);
            for (auto& x : want) x += k;
            walk(c, it, want, [k](int* p) { return (long)p[k]; }, "window traversal");
        });
#endif
}

// ------------------------------------------------------------------ I05 / I06: forward stencils
template <int N>
struct Pairs {
    std::vector<std::pair<long, long>> want;
    // elem: traversal coordinate -> element id; pairs along dimension I of a box of extents n
    template <class E>
    Pairs(const int (&n)[N], int I, E&& elem)
    {
        int x[N] = {}, y[N];
        do {
            if (x[I] + 1 >= n[I]) continue;
            for (int i = 0; i < N; i++) y[i] = x[i];
            y[I]++;
            want.emplace_back(elem(x), elem(y));
        } while (next(x, n));
    }
};
struct Pick {
    template <class S>
    long operator()(S&& s) const
    {
        return (long)s.a * 1000000 + (long)s.b;
    }
};
using PairVec = std::vector<std::pair<long, long>>;
template <class It>
void stencil_visit(Ctx& c, It it, const PairVec& want, const std::string& what)
{
    long n = (long)want.size();
    if (it.size() != n) fail(what, ": size is ", it.size(), ", expected ", n);
    if (n == 0) return;
    auto eq = [&](long i, long a, long b, const char* how) {
        if (a != want[i].first || b != want[i].second)
            fail(what, ", ", how, ": pair ", i, " of ", n, " is (", a, ",", b, "), expected (", want[i].first, ",", want[i].second, ")");
    };
    It x = it;
    for (long i = 0; i < n; i++, ++x) {
        auto&& [a, b] = *x;
        eq(i, (long)a, (long)b, "by increments");
    }
    for (long i = n - 1; i >= 0; i--) {
        --x;
        auto&& [a, b] = *x;
        eq(i, (long)a, (long)b, "backwards from the end");
    }
    std::vector<long> out(n);
    threads(c);
    thrust::transform(it, it + n, thrust::device_ptr<long>(out.data()), Pick{});
    for (long i = 0; i < n; i++) eq(i, out[i] / 1000000, out[i] % 1000000, "by a parallel transform");
}
// f(iterator, wanted pairs, text) for a generated stencil traversal
template <class F>
void any_stencil(Ctx& c, long cap, bool dev, F&& f)
{
    Src& s = c.s;
    int kind = (int)s.draw(4);
    bool rt = s.flip(); // runtime or compile-time direction
    auto go = [&](Store& st, auto&& mk) {
        if (dev)
            mk(st.dev());
        else
            mk(st.ptr());
    };
    if (kind == 0)
        with_n(1 + (int)s.draw(5), [&](auto n_) {
            constexpr int N = decltype(n_)::value;
            int sz[N], d[N];
            gen_shape(c, sz, cap);
            int I = (int)s.draw(N);
            for (int i = 0; i < N; i++) d[i] = sz[i] - (i == I);
            Store st(product(sz));
            long stride = 1, limit = 1, total = 1;
            for (int i = I + 1; i < N; i++) stride *= sz[i];
            for (int i = I; i < N; i++) limit *= d[i];
            for (int i = 0; i < N; i++) total *= d[i];
            Pairs<N> P(sz, I, [&](const int (&x)[N]) { return lin(x, sz); });
            c.label("plain array");
            go(st, [&](auto p) {
                f(make_forward_stencil(p, stride, limit, total), P.want, cat("stencil along ", I, " of plain array ", arr(sz)));
            });
        });
    else if (kind <= 2)
        with_n(1 + (int)s.draw(5), [&](auto n_) {
            constexpr int N = decltype(n_)::value;
            Sub<N> S(c, cap, kind == 2);
            int I = (int)s.draw(N);
            Store st(product(S.sz));
            Pairs<N> P(S.n, I, [&](const int (&x)[N]) {
                int y[N];
                for (int i = 0; i < N; i++) y[i] = S.lb[i] + x[i] * S.stm[i];
                return lin(y, S.sz);
            });
            c.label("sub-box");
            go(st, [&](auto p) {
                auto it = make_submatrix(p, S.sz, S.lb, S.ub, S.stm);
                auto txt = cat("stencil along ", I, " of ", S.show());
                if (rt)
                    f(it.stencil(I), P.want, txt);
                else
                    with_i<N>(I, [&](auto i) { f(it.template stencil<decltype(i)::value>(), P.want, txt); });
            });
        });
    else
        with_perm(c, 1 + s.weighted({1, 4, 6, 3, 2}), [&](auto P_) {
            using Pm = decltype(P_);
            constexpr int N = Pm::N;
            int sz[N], n[N];
            gen_shape(c, sz, cap);
            for (int i = 0; i < N; i++) n[i] = sz[Pm::p[i]];
            int I = (int)s.draw(N);
            Store st(product(sz));
            Pairs<N> P(n, I, [&](const int (&x)[N]) {
                int y[N];
                for (int i = 0; i < N; i++) y[Pm::p[i]] = x[i];
                return lin(y, sz);
            });
            c.label("transposed");
            go(st, [&](auto p) {
                auto it = Pm::make(p, sz);
                auto txt = cat("stencil along ", I, " of array ", arr(sz), " transposed by ", arr(Pm::p));
                if (rt)
                    f(it.stencil(I), P.want, txt);
                else
                    with_i<N>(I, [&](auto i) { f(it.template stencil<decltype(i)::value>(), P.want, txt); });
            });
        });
}
using PairLazy = Lazy<std::pair<long, long>>;
// f(iterator, wanted pairs, text) over arrays that exist only as numbers
template <class F>
void huge_stencil(Ctx& c, F&& f)
{
    Src& s = c.s;
    int kind = (int)s.draw(4);
    bool rt = s.flip();
    c.label("large index space");
    auto pairs = [](const auto& n, int I, auto elem) {
        constexpr int N = std::extent_v<std::remove_reference_t<decltype(n)>>;
        std::array<int, N> d;
        long total = 1;
        for (int i = 0; i < N; i++) d[i] = n[i] - (i == I), total *= d[i];
        return PairLazy{total, [=](long p) {
                            int x[N];
                            for (int i = N - 1; i >= 0; i--) x[i] = (int)(p % d[i]), p /= d[i];
                            long a = elem(x);
                            x[I]++;
                            return std::pair<long, long>(a, elem(x));
                        }};
    };
    auto run = [&](auto it, auto n_, int I, const PairLazy& want, const std::string& txt) {
        constexpr int N = decltype(n_)::value;
        if (rt)
            f(it.stencil(I), want, txt);
        else
            with_i<N>(I, [&](auto i) { f(it.template stencil<decltype(i)::value>(), want, txt); });
    };
    if (kind == 0)
        with_n(1 + (int)s.draw(5), [&](auto n_) {
            constexpr int N = decltype(n_)::value;
            std::array<int, N> z;
            int sz[N];
            gen_wide(c, sz, INT_MAX);
            std::copy(sz, sz + N, z.begin());
            int I = (int)s.draw(N);
            long stride = 1, limit = 1, total = 1;
            for (int i = I + 1; i < N; i++) stride *= sz[i];
            for (int i = I; i < N; i++) limit *= sz[i] - (i == I);
            for (int i = 0; i < N; i++) total *= sz[i] - (i == I);
            auto want = pairs(sz, I, [z](const int (&x)[N]) {
                int q[N];
                for (int i = 0; i < N; i++) q[i] = z[i];
                return lin(x, q);
            });
            f(make_forward_stencil(numbers(), stride, limit, total), want, cat("stencil along ", I, " of plain array ", arr(sz)));
        });
    else if (kind <= 2)
        with_n(1 + (int)s.draw(5), [&](auto n_) {
            constexpr int N = decltype(n_)::value;
            Sub<N> S(c, Sub<N>::HUGE_CAP, kind == 2);
            int I = (int)s.draw(N);
            auto want = pairs(S.n, I, [S](const int (&x)[N]) { return S.at(x); });
            run(make_submatrix(numbers(), S.sz, S.lb, S.ub, S.stm), n_, I, want, cat("stencil along ", I, " of ", S.show()));
        });
    else
        with_perm(c, 1 + s.weighted({1, 4, 6, 3, 2}), [&](auto P_) {
            using Pm = decltype(P_);
            constexpr int N = Pm::N;
            int sz[N], n[N];
            std::array<int, N> z;
            gen_wide(c, sz, INT_MAX);
            std::copy(sz, sz + N, z.begin());
            for (int i = 0; i < N; i++) n[i] = sz[Pm::p[i]];
            int I = (int)s.draw(N);
            auto want = pairs(n, I, [z](const int (&x)[N]) {
                int y[N], q[N];
                for (int i = 0; i < N; i++) y[Pm::p[i]] = x[i], q[i] = z[i];
                return lin(y, q);
            });
            run(Pm::make(numbers(), sz), std::integral_constant<int, N>(), I, want, cat("stencil along ", I, " of array ", arr(sz), " transposed by ", arr(Pm::p)));
        });
}
static const auto pair_of = [](auto&& st) { return std::pair<long, long>((long)st.a, (long)st.b); };
PROP(I05)
{
    if (c.s.chance(1, 4))
        return huge_stencil(c, [&](auto it, const PairLazy& want, const std::string& txt) {
            c.note(txt);
            if ((long)it.size() != want.n) fail(txt, ": size is ", it.size(), ", expected ", want.n);
            spots(c, it, want, pair_of, txt);
        });
    any_stencil(c, c.s.chance(1, 12) ? 10000 : 800, true, [&](auto it, const PairVec& want, const std::string& txt) {
        c.note(txt);
        if (want.size() >= 2) c.nontrivial = true;
        stencil_visit(c, it, want, txt);
    });
}
PROP(I06)
{
    if (c.s.chance(1, 6))
        return huge_stencil(c, [&](auto it, const PairLazy& want, const std::string& txt) {
            c.note(txt);
            if (want.n > 0) walk(c, it, want, pair_of, txt);
        });
    any_stencil(c, c.s.chance(1, 12) ? 5000 : 300, false, [&](auto it, const PairVec& want, const std::string& txt) {
        c.note(txt);
        walk(c, it, want, [](auto&& st) { return std::pair<long, long>((long)st.a, (long)st.b); }, txt);
    });
}

// ------------------------------------------------------------------ I07
PROP(I07)
{
    Src& s = c.s;
    if (s.chance(1, 6))
        return with_n(1 + (int)s.draw(4), [&](auto n_) {
            constexpr int N = decltype(n_)::value;
            int sz[N], ci[N];
            gen_wide(c, sz, INT_MAX);
            int I = (int)s.draw(N);
            long r = (long)s.pick({2, 4, 3, 1, 8, 5, 16, 7, 6, 9, 10, 32, 64, 100});
            // coarse indices base .. base+len-1, their children within int
            long len = std::min((long)sz[I], (long)INT_MAX / r - 1), top = (long)INT_MAX / r - len;
            long base = s.around(-top, top - 1, 0);
            for (int i = 0; i < N; i++) ci[i] = (int)s.draw(sz[i]);
            ci[I] = (int)s.draw((uint64_t)len);
            long first = (base + ci[I]) * r + (long)s.draw((uint64_t)r), last = (base + len) * r - 1, step = s.range(1, s.flip() ? 1 : 9);
            std::array<int, N> z, cc;
            std::copy(sz, sz + N, z.begin()), std::copy(ci, ci + N, cc.begin());
            Lazy<long> want{(last - first) / step + 1, [=](long p) {
                                long f = first + p * step, q = f >= 0 ? f / r : -((-f + r - 1) / r);
                                int x[N], y[N];
                                for (int i = 0; i < N; i++) x[i] = cc[i], y[i] = z[i];
                                x[I] = (int)(q - base);
                                return lin(x, y);
                            }};
            c.note("coarse array ", arr(sz), " from coarse index ", base, " direction ", I, " ratio ", r, " fine from ", first, " by ", step, " coarse corner ", arr(ci));
            c.label("large index space");
            // the position past the end stays within int
            if (first + want.n * step > INT_MAX) want.n = (INT_MAX - first) / step;
            with_i<N>(I, [&](auto i) {
                walk(c, make_coarse_to_fine<decltype(i)::value, N>(numbers(), sz, ci, (int)first, (int)r, (int)step), want, number, "coarse lookup");
            });
        });
    with_n(1 + (int)s.draw(4), [&](auto n_) {
        constexpr int N = decltype(n_)::value;
        int I = (int)s.draw(N);
        int r = (int)s.pick({2, 4, 3, 1, 8, 5, 16, 7, 6, 9, 10, 32, 64, 100});
        int lc = s.weighted({3, 2, 1});
        int R = lc == 0 ? 12 : lc == 1 ? 200 : 1000000;
        int f0 = (int)s.around(-R, R, 0);
        int len = (int)s.range(1, s.chance(1, 10) ? 2000 : 60), step = 1 + s.weighted({6, 2, 1, 1, 1});
        int span = (len - 1) * step + 1;
        auto fl = [&](long x) { return (int)(x >= 0 ? x / r : -((-x + r - 1) / r)); };
        int base = fl(f0) - (int)s.draw(4), top = fl(f0 + span) + (int)s.draw(3);
        int sz[N], ci[N];
        long tot = 1;
        for (int i = 0; i < N; i++) {
            sz[i] = i == I ? top - base + 1 : (int)s.range(1, 5);
            ci[i] = i == I ? fl(f0) - base : (int)s.draw(sz[i]);
            tot *= sz[i];
        }
        Store st(tot);
        std::vector<long> want;
        for (int k = 0; k < len; k++) {
            int x[N];
            for (int i = 0; i < N; i++) x[i] = i == I ? fl(f0 + (long)k * step) - base : ci[i];
            want.push_back(lin(x, sz));
        }
        c.note("coarse array ", arr(sz), " direction ", I, " ratio ", r, " fine [", f0, ",", f0 + span - 1, "] step ", step, " coarse corner ", arr(ci));
        c.label(f0 < 0 ? (f0 + span > 0 ? "crosses zero" : "negative") : "non-negative");
        bool par = s.chance(1, 4);
        with_i<N>(I, [&](auto i) {
            if (par)
                visit(c, step == 1 ? make_coarse_to_fine<decltype(i)::value, N>(st.dev(), sz, ci, f0, r) : make_coarse_to_fine<decltype(i)::value, N>(st.dev(), sz, ci, f0, r, step), want, "coarse lookup");
#ifndef PBT_REDUCED
            if (step == 1 && s.chance(1, 5)) {
                int along = 1;
                for (int j = N - 1; j > I; j--) along *= sz[j];
                return walk(c, coarse_to_fine_iterator<std::decay_t<decltype(st.ptr())>>(st.ptr() + lin(ci, sz), r, along, f0), want, [](auto&& v) { return (long)v; }, "coarse lookup");
            }
#endif
            walk(c, make_coarse_to_fine<decltype(i)::value, N>(st.ptr(), sz, ci, f0, r, step), want, [](auto&& v) { return (long)v; }, "coarse lookup");
        });
        if (len >= 2) c.nontrivial = true;
    });
}

// ------------------------------------------------------------------ I08 (lookup part)
PROP(I08a)
{
    Src& s = c.s;
    with_n(1 + (int)s.draw(4), [&](auto n_) {
        constexpr int N = decltype(n_)::value;
        int sz[N], base[N], stride[N];
        bool huge = s.chance(1, 6);
        if (huge)
            gen_wide(c, sz, INT_MAX), c.label("large index space");
        else
            gen_shape(c, sz, 2000);
        for (int i = 0; i < N; i++) base[i] = (int)s.draw(sz[i]);
        for (int i = 0; i < N; i++) {
            stride[i] = 1;
            for (int j = i + 1; j < N; j++) stride[i] *= sz[j];
        }
        int m = (int)s.range(1, s.chance(1, 8) ? 130 : 27);
        std::vector<int> tab;
        std::vector<long> want;
        for (int k = 0; k < m; k++) {
            int x[N];
            for (int i = 0; i < N; i++) {
                int o = (int)s.around(-base[i], sz[i] - 1 - base[i], 0);
                tab.push_back(o);
                x[i] = base[i] + o;
            }
            want.push_back(lin(x, sz));
        }
        c.note("array ", arr(sz), " base ", arr(base), " table of ", m);
        c.label("offset lookup");
        thrust::device_ptr<int> o(tab.data());
        long b = lin(base, sz);
        if (m >= 2) c.nontrivial = true;
        if (huge) return walk(c, make_offset_iterator(numbers() + b, stride, o), want, number, "offset lookup");
        Store st(product(sz));
        if (s.chance(1, 4)) visit(c, make_offset_iterator(st.dev() + b, stride, o), want, "offset lookup");
        walk(c, make_offset_iterator(st.ptr() + b, stride, o), want, [](auto&& v) { return (long)v; }, "offset lookup");
        if (m >= 2) c.nontrivial = true;
    });
}

// ------------------------------------------------------------------ I10
template <int O>
void i10(Ctx& c)
{
    using B = lazy::dir_bounds<O>;
    Src& s = c.s;
    int R = s.pick({20, 1000, 1000000});
    long lb = s.around(-R, R, 0), ub = lb + s.range(0, 30), st = s.range(1, 5);
    bool incl = s.flip();
    B b = st == 1 && s.flip() ? B{(int)lb, (int)ub} : incl ? B{(int)lb, (int)ub, (int)st} : B{(int)lb, (int)ub + 1, (int)st, false};
    if (st != 1 && b.stride == 1) st = 1;
    std::string trace = cat("[", lb, ",", ub, "] step ", st);
    auto check = [&](const B& q, long l, long u, long t) {
        if (q.lb() != l || q.ub() != u || q.stride != t)
            fail(trace, ": range is [", q.lb(), ",", q.ub(), "] step ", q.stride, ", expected [", l, ",", u, "] step ", t);
        if ((t == 1 || u >= l) && q.size() != (u - l) / t + 1) fail(trace, ": size is ", q.size(), ", expected ", (u - l) / t + 1);
    };
    check(b, lb, ub, st);
    int n = (int)s.range(1, 8);
    for (int i = 0; i < n; i++) {
        B old = b, r = b;
        long l = lb, u = ub, t = st;
        int x = (int)s.around(-9, 9, 0);
        switch (s.draw(6)) {
        case 0:
            r = b + x;
            (x >= 0 ? u : l) += x;
            trace += cat(" + ", x);
            break;
        case 1:
            r = b - x;
            l -= x;
            trace += cat(" - ", x);
            break;
        case 2:
            r = b.expand(x);
            l -= x, u += x;
            trace += cat(" expand ", x);
            break;
        case 3:
            r = b.shift(x);
            l += x, u += x;
            trace += cat(" shift ", x);
            break;
        case 4:
            r = b.unit_stride();
            t = 1;
            trace += " unit_stride";
            break;
        case 5:
#ifdef PBT_REDUCED
            r = O != lazy::dim::W ? b.expand(x) : b;
#else
            r = ::detail::expand_bounds(x, b);
#endif
            if (O != lazy::dim::W) l -= x, u += x;
            trace += cat(" ghost ", x);
            break;
        }
        check(b, lb, ub, st); // the operand is unchanged
        check(r, l, u, t);
        b = r, lb = l, ub = u, st = t;
    }
    c.note(trace);
    if (n >= 2) c.nontrivial = true;
    c.label(cat("direction ", O));
}
// ranges without a direction: the raising and lowering operators and widening
void i10_plain(Ctx& c)
{
    Src& s = c.s;
    int R = s.pick({20, 1000, 1000000});
    long lb = s.around(-R, R, 0), ub = lb + s.range(0, 30), st = s.range(1, 5);
    bounds b = s.flip() ? bounds((int)lb, (int)ub, (int)st) : bounds((int)lb, (int)ub + 1, (int)st, false);
    std::string trace = cat("plain [", lb, ",", ub, "] step ", st);
    auto check = [&](const bounds& q, long l, long u) {
        if (q.lb() != l || q.ub() != u || q.stride != st)
            fail(trace, ": range is [", q.lb(), ",", q.ub(), "] step ", q.stride, ", expected [", l, ",", u, "] step ", st);
        if (u >= l && q.size() != (u - l) / st + 1) fail(trace, ": size is ", q.size(), ", expected ", (u - l) / st + 1);
    };
    check(b, lb, ub);
    int n = (int)s.range(1, 8);
    for (int i = 0; i < n; i++) {
        bounds r = b;
        long l = lb, u = ub;
        int x = (int)s.range(0, 9);
        switch (s.draw(5)) {
        case 0: r = b + x, u += x, trace += cat(" + ", x); break;
        case 1: r = b - x, l -= x, trace += cat(" - ", x); break;
        case 2: x = (int)s.around(-4, 9, 0), r = b.expand(x), l -= x, u += x, trace += cat(" expand ", x); break;
        case 3: (r += x) -= x, l -= x, u += x, trace += cat(" += and -= ", x); break;
        case 4: (r -= x) += x + 1, l -= x, u += x + 1, trace += cat(" -= ", x, " += ", x + 1); break;
        }
        check(b, lb, ub);
        check(r, l, u);
        b = r, lb = l, ub = u;
    }
    c.note(trace);
    if (n >= 2) c.nontrivial = true;
    c.label("plain range");
}

PROP(I10)
{
    if (c.s.chance(1, 6)) return i10_plain(c);
    switch (c.s.draw(4)) {
    case 0: return i10<lazy::dim::I>(c);
    case 1: return i10<lazy::dim::J>(c);
    case 2: return i10<lazy::dim::K>(c);
    default: return i10<lazy::dim::W>(c);
    }
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
