// V01: owning arrays (md_device_vector) against a model of their two copies.
#include "../engine/pbt.hpp"

#include "md_device_span.hpp"
#include "md_device_vector.hpp"

using namespace pbt;

// ------------------------------------------------------------------ V01
template <typename T>
T value(Ctx& c)
{
    long v = c.s.around(-100, 100, 0);
    return (T)v / (T)(std::is_integral_v<T> ? 1 : 4);
}
// the array under test, the two copies it keeps, and whether the host copy is the one to read
template <typename T, int... O>
struct Arr {
    static constexpr int N = sizeof...(O);
    using V = md_device_vector<T, O...>;
    V v;
    std::vector<T> h, d;
    bool host_is_current = true;
    int lo[N], n[N];

    Arr(Ctx&, V&& v_, const int (&l)[N], const int (&e)[N]) : v{v_}
    {
        long t = 1;
        for (int i = 0; i < N; i++) lo[i] = l[i], n[i] = e[i], t *= e[i];
        h.assign(t, T{});
        d = h;
    }
    void shape(const char* who) const
    {
        if (v.size() != (int)h.size()) fail(who, ": size is ", v.size(), ", expected ", h.size());
        for (int i = 0; i < N; i++)
            if (v.dim(i) != n[i]) fail(who, ": extent ", i, " is ", v.dim(i), ", expected ", n[i]);
    }
    template <class R>
    void eq(const char* who, const R& got, const std::vector<T>& want) const
    {
        if ((size_t)got.size() != want.size()) fail(who, " has ", got.size(), " elements, expected ", want.size());
        for (size_t i = 0; i < want.size(); i++) {
            T g = got[i];
            if (!(g == want[i])) fail(who, " element ", i, " is ", g, ", expected ", want[i]);
        }
    }
    template <class R>
    void eqp(const char* who, const R* got, const std::vector<T>& want) const
    {
        for (size_t i = 0; i < want.size(); i++)
            if (!(got[i] == want[i])) fail(who, " element ", i, " is ", got[i], ", expected ", want[i]);
    }
    // reading brings the host copy up to date when the device copy was handed out since
    void sync()
    {
        if (!host_is_current) h = d;
        host_is_current = true;
    }
    template <size_t... I>
    int index(const int (&x)[N], std::index_sequence<I...>) const
    {
        return v.index(x[I]...);
    }
    template <size_t... I>
    void offset(int row, const int* x, std::index_sequence<I...>)
    {
        v.set_offset(row, x[I]...);
    }
    void step(Ctx& c)
    {
        Src& s = c.s;
        switch (s.weighted({4, 3, 3, 2, 2, 3, 2})) {
        case 0: { // a kernel writes
            T* p = v.data();
            host_is_current = false;
            int k = (int)s.range(0, 4);
            for (int i = 0; i < k; i++) {
                long j = (long)s.draw(d.size());
                p[j] = d[j] = value<T>(c);
            }
            c.note("device writes ", k, "; ");
            break;
        }
        case 1:
            c.note("host(); ");
            sync();
            eq("host()", v.host(), h);
            break;
        case 2: {
            c.note("vector; ");
            sync();
            std::vector<T> u = v;
            eq("the vector", u, h);
            u.assign(u.size(), T(77)); // a copy of its own
            break;
        }
        case 3: {
            // a kernel reads
            c.note("device reads; ");
            const V& w = v;
            const T* p = s.flip() ? w.data() : v.data();
            host_is_current = false;
            eqp("data()", p, d);
            break;
        }
        case 4: {
            c.note("fill; ");
            T a = value<T>(c), b = a + (T)s.range(1, 9);
            v.fill_random(a, b);
            const T* p = v.host_data();
            h.assign(p, p + h.size());
            d = h;
            host_is_current = true;
            for (auto x : h)
                if (!(x >= a && x <= b)) fail("random element ", x, " outside [", a, ",", b, "]");
            if (h.size() > 200) {
                bool same = true;
                for (auto x : h) same &= x == h[0];
                if (same) fail("all ", h.size(), " random elements are ", h[0]);
            }
            break;
        }
        case 5: {
            c.note("host writes; ");
            // the host copy is written directly, as the Fortran side does; that leaves the device copy alone
            if (!host_is_current) {
                sync();
                eq("host()", v.host(), h);
            }
            T* p = v.host_data();
            eqp("host_data()", p, h);
            int k = (int)s.range(0, 3);
            for (int i = 0; i < k; i++) {
                long j = (long)s.draw(h.size());
                p[j] = h[j] = value<T>(c);
            }
            break;
        }
        case 6: { // a copy is an array of its own
            c.note("copy; ");
            V w = v;
            std::vector<T> dd = d, hh = host_is_current ? h : d;
            T* p = w.data();
            eqp("the copy's data()", p, dd);
            if (!dd.empty()) p[0] = dd[0] + T(1);
            T* q = w.host_data();
            if (!hh.empty()) q[0] = T(99);
            if (s.flip()) {
                v = w; // and can be assigned back
                host_is_current = false;
                d[0] = dd[0] + T(1);
                h[0] = T(99);
            }
            break;
        }
        }
    }
    void indices(Ctx& c)
    {
        long t = (long)h.size();
        for (int k = 0; k < 6; k++) {
            long want = (long)c.s.draw((uint64_t)t), r = want;
            int x[N];
            for (int i = N - 1; i >= 0; i--) x[i] = lo[i] + (int)(r % n[i]), r /= n[i];
            int got = index(x, std::make_index_sequence<N>());
            if (got != want) fail("index of the element at linear position ", want, " is ", got);
        }
    }
    void end(Ctx& c)
    {
        sync();
        eq("host() at the end", v.host(), h);
        shape("at the end");
    }
};
template <typename T, int... O>
void v01(Ctx& c)
{
    Src& s = c.s;
    constexpr int N = sizeof...(O), order[] = {O...};
    int lo[N], hi[N], e[N], g = s.flip() ? (int)s.range(0, 4) : -1;
    long t = 1;
    const int large = s.chance(1, 200) ? (int)s.draw(N) : -1, far = s.chance(1, 20) ? 1000000000 : 40;
    if (large >= 0) c.label("more than 1500 elements possible");
    for (int i = 0; i < N; i++) {
        lo[i] = (int)s.around(-far, far, 0);
        int cap = (int)std::min<long>(9, std::max<long>(1, 1500 / t));
        if (i == large) cap = (int)std::max<long>(1, 80000 / t);
        hi[i] = lo[i] + (int)s.draw(cap);
        int w = order[i] == lazy::dim::W ? 0 : std::max(g, 0);
        e[i] = hi[i] - lo[i] + 1 + 2 * w;
        t *= e[i];
    }
    auto make = [&](auto... b) { return g < 0 ? make_md_vec<T>(b...) : make_md_vec<T>(g, b...); };
    int i = 0;
    auto bnds = std::tuple{[&] {
        int k = i++;
        return lazy::dir_bounds<O>{lo[k], hi[k]};
    }()...};
    c.note("order ");
    for (int o : order) c.note("KJIW"[o]);
    for (int k = 0; k < N; k++) c.note(" [", lo[k], ",", hi[k], "]");
    if (g >= 0) c.note(" ghosts ", g);
    c.note(": ");
    if (g > 0)
        for (int k = 0; k < N; k++)
            if (order[k] != lazy::dim::W) lo[k] -= g;
    Arr<T, O...> a(c, std::apply(make, bnds), lo, e);
    a.shape("new array");
    a.eq("new array", a.v.host(), a.h);
    a.indices(c);
    int n = (int)s.range(0, 10);
    for (int k = 0; k < n; k++) a.step(c);
    a.indices(c);
    a.end(c);
    if (s.flip()) {
        // a span over the same bounds sees the same elements
        c.label("span");
        T x = value<T>(c);
        T* p = a.v.data();
        auto span = std::apply([&](auto... b) { return g < 0 ? make_md_span(p, b...) : make_md_span(p, g, b...); }, bnds);
        auto q = span.begin();
        for (size_t k = 0; k < a.d.size(); k++) {
            T got = *(q + (long)k);
            if (!(got == a.d[k])) fail("span element ", k, " is ", got, ", expected ", a.d[k]);
        }
        with_lhs_domain(span = x);
        a.host_is_current = false;
        a.d.assign(a.d.size(), x);
        a.end(c);
    }
    if (t > 1 && n >= 2) c.nontrivial = true;
    c.label(cat(N, " dimensions"));
}
void offsets(Ctx& c)
{
    Src& s = c.s;
    int n = (int)s.range(1, 30), dims = (int)s.range(1, 3);
    auto o = make_offset_vec(n, dims);
    std::vector<int> want(n * dims, 0);
    if (o.size() != n * dims || o.dim(0) != n || o.dim(1) != dims) fail("a table of ", n, " offsets in ", dims, " dimensions has extents ", o.dim(0), " x ", o.dim(1));
    int m = (int)s.range(1, 12);
    c.note(n, " offsets in ", dims, " dimensions: ");
    for (int k = 0; k < m; k++) {
        int r = (int)s.draw(n), x[3];
        for (int q = 0; q < dims; q++) x[q] = want[r * dims + q] = (int)s.around(-5, 5, 0);
        c.note("row ", r, "; ");
        if (dims == 1) o.set_offset(r, x[0]);
        if (dims == 2) o.set_offset(r, x[0], x[1]);
        if (dims == 3) o.set_offset(r, x[0], x[1], x[2]);
        if (s.chance(1, 3) || k + 1 == m) {
            std::vector<int> host = o;
            if (host != want) fail("the table on the host differs from what was set");
            const int* p = o.data();
            for (int q = 0; q < n * dims; q++)
                if (p[q] != want[q]) fail("entry ", q, " on the device is ", p[q], ", expected ", want[q]);
            host = o; // back to the host
            int d = (int)s.draw(dims);
            if (host[o.index(r, d)] != want[r * dims + d]) fail("index(", r, ",", d, ") is ", o.index(r, d));
        }
    }
    if (m > 1) c.nontrivial = true;
    c.label("offset table");
}
PROP(V01)
{
    using namespace lazy;
    bool dbl = c.s.flip();
    auto go = [&](auto t) {
        using T = decltype(t);
        switch (c.s.draw(13)) {
        case 0: return v01<T, dim::I>(c);
        case 1: return v01<T, dim::J>(c);
        case 2: return v01<T, dim::J, dim::I>(c);
        case 3: return v01<T, dim::I, dim::J>(c);
        case 4: return v01<T, dim::K, dim::J, dim::I>(c);
        case 5: return v01<T, dim::I, dim::K, dim::J>(c);
        case 6: return v01<T, dim::J, dim::I, dim::K>(c);
        case 7: return v01<T, dim::I, dim::W>(c);
        case 8: return v01<T, dim::J, dim::I, dim::W>(c);
        case 9: return v01<T, dim::K, dim::J, dim::I, dim::W>(c);
        case 10: return v01<T, dim::W, dim::K, dim::J>(c);
        case 11: return v01<int, dim::K, dim::I>(c);
        default: return offsets(c);
        }
    };
    if (dbl)
        go(double{});
    else
        go(float{});
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
