// Kernel-call generators with reference models, shared by the kernel properties.
#pragma once
#include "../engine/field.hpp"
#include "cd_apply_1d_cuda.hpp"
#include "cd_apply_2d_cuda.hpp"
#include "cd_apply_3d_cuda.hpp"
#include "cd_correct_bc_1d_cuda.hpp"
#include "cd_correct_bc_2d_cuda.hpp"
#include "cd_correct_bc_3d_cuda.hpp"
#include "cd_flux_1d_cuda.hpp"
#include "cd_flux_2d_cuda.hpp"
#include "cd_flux_3d_cuda.hpp"
#include "cd_stencil_1d_cuda.hpp"
#include "cd_stencil_2d_cuda.hpp"
#include "cd_stencil_3d_cuda.hpp"
#include "coarse_to_fine_cuda.hpp"
#include "prototypes1d.h"
#include "prototypes2d.h"
#include "prototypes3d.h"
#include <tuple>

using namespace pbt;

template <int D, class T>
struct CD;
template <class T>
struct CD<1, T> {
    using F = cdf_1d_cuda<T>;
    using A = cd_apply_1d_cuda<T>;
    using B = cd_correct_bc_1d_cuda<T>;
    using S = cd_stencil_1d_cuda<T>;
};
template <class T>
struct CD<2, T> {
    using F = cdf_2d_cuda<T>;
    using A = cd_apply_2d_cuda<T>;
    using B = cd_correct_bc_2d_cuda<T>;
    using S = cd_stencil_2d_cuda<T>;
};
template <class T>
struct CD<3, T> {
    using F = cdf_3d_cuda<T>;
    using A = cd_apply_3d_cuda<T>;
    using B = cd_correct_bc_3d_cuda<T>;
    using S = cd_stencil_3d_cuda<T>;
};

// ghost width of a stencil array; the node-centred routines have no such argument
struct Gst {
    int g;
    operator const int&() const { return g; }
};
// node-centred twins by the name of the cell-centred routine (filled by linsolve.cpp)
using Fsym = void (*)();
inline std::map<std::string, Fsym>& node_syms()
{
    static std::map<std::string, Fsym> m;
    return m;
}
template <class A>
auto by_ref(A& a)
{
    if constexpr (std::is_same_v<A, Gst>)
        return std::tuple<>();
    else if constexpr (std::is_pointer_v<A>)
        return std::tuple<A>(a);
    else
        return std::tuple<A*>(&a);
}
// Fortran call by reference
template <class... A>
void fcall(Fsym f, std::tuple<A...>& t)
{
    auto p = std::apply([](auto&... a) { return std::tuple_cat(by_ref(a)...); }, t);
    std::apply([f](auto... q) { reinterpret_cast<void (*)(decltype(q)...)>(f)(q...); }, p);
}

// impl 0: Thrust, impl 1: reference Fortran (double only), impl 2: node-centred reference
#define KCALL(CLS, METH, FBASE, ARGS)                                   \
    do {                                                                \
        auto args_ = ARGS;                                              \
        if (impl == 0)                                                  \
            std::apply(&CD<D, T>::CLS::METH, args_);                    \
        else if (impl == 2)                                             \
            fcall(node_syms().at(cat(#FBASE, D, "d")), args_);          \
        else if constexpr (std::is_same_v<T, double>) {                 \
            if constexpr (D == 1)                                       \
                std::apply(&FBASE##1d_, args_);                         \
            else if constexpr (D == 2)                                  \
                std::apply(&FBASE##2d_, args_);                         \
            else                                                        \
                std::apply(&FBASE##3d_, args_);                         \
        }                                                               \
    } while (0)

template <class... A>
auto tc(A&&... a)
{
    return std::tuple_cat(std::forward<A>(a)...);
}
template <class... A>
auto tp(A... a)
{
    return std::tuple<A...>(a...);
}

struct Box {
    int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
    long cells(int D) const
    {
        long n = 1;
        for (int d = 0; d < D; d++) n *= std::max(0L, (long)hi[d] - lo[d] + 1);
        return n;
    }
};
inline std::string show(const Box& b, int D)
{
    std::string s;
    for (int d = 0; d < D; d++)
        s += (d ? "x[" : "[") + std::to_string(b.lo[d]) + "," + std::to_string(b.hi[d]) + "]";
    return s;
}

template <int D>
auto split(const Box& b)
{
    if constexpr (D == 1)
        return tp(b.lo[0], b.hi[0]);
    else if constexpr (D == 2)
        return tp(b.lo[0], b.lo[1], b.hi[0], b.hi[1]);
    else
        return tp(b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]);
}
template <int D>
auto pair(const Box& b)
{
    if constexpr (D == 1)
        return tp(b.lo[0], b.hi[0]);
    else if constexpr (D == 2)
        return tp(b.lo[0], b.hi[0], b.lo[1], b.hi[1]);
    else
        return tp(b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]);
}
template <int D, class T>
auto ptrs(Field<T>* const* f)
{
    if constexpr (D == 1)
        return tp(f[0]->ptr());
    else if constexpr (D == 2)
        return tp(f[0]->ptr(), f[1]->ptr());
    else
        return tp(f[0]->ptr(), f[1]->ptr(), f[2]->ptr());
}

template <int D, class Fn>
void each(const Box& b, Fn&& fn)
{
    int c[3] = {0, 0, 0};
    int l2 = D > 2 ? b.lo[2] : 0, h2 = D > 2 ? b.hi[2] : 0;
    int l1 = D > 1 ? b.lo[1] : 0, h1 = D > 1 ? b.hi[1] : 0;
    for (c[2] = l2; c[2] <= h2; c[2]++)
        for (c[1] = l1; c[1] <= h1; c[1]++)
            for (c[0] = b.lo[0]; c[0] <= b.hi[0]; c[0]++) fn(c);
}
struct Off {
    int c[3];
    Off(const int* x, int d, int s)
    {
        c[0] = x[0];
        c[1] = x[1];
        c[2] = x[2];
        c[d] += s;
    }
    operator const int*() const { return c; }
};

// ------------------------------------------------------------------ calls
template <class T>
struct Call {
    std::string name;
    std::vector<std::unique_ptr<Field<T>>> fields;
    std::function<void()> model;
    std::function<void(int)> run;
    bool fortran = true;
    long cells = 0; // cells the call is documented to write
    int dir = -1;   // the normal direction of a boundary call
    double tolk = 64; // tolerance in units of eps times magnitude
    bool special = false; // rule whose constants differ between dimensions
    std::string text;

    Field<T>* field(const char* n, const Frame& fr)
    {
        fields.emplace_back(new Field<T>);
        fields.back()->name = n;
        fields.back()->fr = fr;
        return fields.back().get();
    }
    // cell-centred array on box b grown by g
    template <int D>
    Field<T>* cell(const char* n, const Frame& fr, const Box& b, int g)
    {
        auto* f = field(n, fr);
        f->nd = D;
        for (int d = 0; d < D; d++) {
            f->dim[d] = d;
            f->lo[d] = b.lo[d] - g;
            f->hi[d] = b.hi[d] + g;
        }
        f->layout();
        return f;
    }
    // face-centred array for direction a: fastest a (one more entry), then cyclic
    template <int D>
    Field<T>* face(const char* n, const Frame& fr, const Box& b, int a, int g)
    {
        auto* f = field(n, fr);
        f->name += std::to_string(a);
        f->facedir = a;
        f->nd = D;
        for (int p = 0; p < D; p++) f->dim[p] = (a + p) % D;
        for (int d = 0; d < D; d++) {
            f->lo[d] = b.lo[d] - g;
            f->hi[d] = b.hi[d] + g + (d == a);
        }
        f->layout();
        return f;
    }
    template <int D>
    Field<T>* stencil(const char* n, const Frame& fr, const Box& b, int g)
    {
        auto* f = field(n, fr);
        f->nd = D + 1;
        f->dim[0] = 3;
        f->lo[3] = 0;
        f->hi[3] = 2 * D;
        f->wstencil = true;
        for (int d = 0; d < D; d++) {
            f->dim[d + 1] = d;
            f->lo[d] = b.lo[d] - g;
            f->hi[d] = b.hi[d] + g;
        }
        f->layout();
        return f;
    }
};

struct KCtx {
    Ctx& c;
    Frame fr;
    bool big = true;       // allow large boxes
    bool symmetric = false; // only rules that exist for every direction
    int threads = 1;
    double amul = 1, bmul = 1; // factors on alpha and beta (K13)
    bool node = false;     // stencil arrays without ghost cells
};

// ------------------------------------------------------------------ generators
inline int gen_extent(Src& s, int scale, int D)
{
    if (scale == 0) return (int)s.range(1, 7);
    if (scale == 1) return (int)s.range(1, D == 1 ? 3000 : D == 2 ? 60 : 16);
    if (scale == 2) return (int)s.range(1, D == 1 ? 70000 : D == 2 ? 280 : 44);
    return 1;
}
// always draws three directions so that cases of different dimension share their prefix
inline Box gen_box(KCtx& k, int D, int scaleD = 0)
{
    Src& s = k.c.s;
    int scale = k.big ? s.weighted({84, 8, 1, 7}) : s.weighted({94, 0, 0, 6});
    int wide = scale == 3 ? (int)s.draw(scaleD ? scaleD : D) : 0; // one direction much longer than the others
    int lc = s.weighted({9, 12, 6, 3, 1});
    Box b;
    for (int d = 0; d < 3; d++) {
        int r = lc == 0 ? 0 : lc == 1 ? 9 : lc == 2 ? 60 : lc == 3 ? 100000 : 50000000;
        int lo = (int)s.around(-r, r, 0);
        int e = scale == 3 ? (int)s.range(1, d == wide ? (k.big ? 400 : 70) : 3) : gen_extent(s, scale, scaleD ? scaleD : D);
        int a = k.fr.perm[d];
        b.lo[a] = lo + k.fr.shift[a];
        b.hi[a] = lo + k.fr.shift[a] + e - 1;
    }
    for (int d = D; d < 3; d++)
        if (k.fr.perm[d] == d) b.lo[d] = b.hi[d] = 0;
    return b;
}
inline int gen_ghost(KCtx& k, int min = 0)
{
    int g = min + k.c.s.weighted({30, 24, 12, 6, 1, 1, 1, 1});
    return g + k.fr.extra_ghost;
}
template <class T>
T gen_scalar(KCtx& k, bool positive = false)
{
    Src& s = k.c.s;
    switch (s.weighted({2, 2, 4, positive ? 0 : 2, positive ? 0 : 1})) {
    case 0: return (T)1;
    case 1: return (T)s.pick({0.5, 2.0, 3.0, 0.1});
    case 2: return (T)(0.05 + 4.0 * (double)s.draw(1000) / 1000.0);
    case 3: return (T)(-3.0 + 6.0 * (double)s.draw(1000) / 1000.0);
    }
    return (T)s.pick({0.0, -1.0});
}
template <class T>
struct Scal {
    T v[3];
};
template <class T>
Scal<T> gen_dx(KCtx& k)
{
    Scal<T> r;
    for (int d = 0; d < 3; d++) {
        Src& s = k.c.s;
        T x = 1;
        switch (s.weighted({2, 3, 4})) {
        case 1: x = (T)s.pick({0.5, 0.25, 2.0, 0.1, 0.001, 40.0}); break;
        case 2: x = (T)(0.01 + 3.0 * (double)s.draw(1000) / 1000.0); break;
        }
        r.v[k.fr.perm[d]] = x;
    }
    return r;
}
template <int D, class T>
std::string show_dx(const Scal<T>& dx)
{
    std::string s = " dx=(";
    for (int d = 0; d < D; d++) s += cat(d ? "," : "", dx.v[d]);
    return s + ")";
}
// fills for one array per direction, drawn in canonical order
struct Fills {
    Fill f[3];
};
inline Fills gen_fills(KCtx& k, bool positive = false)
{
    Fills r;
    for (int d = 0; d < 3; d++) r.f[k.fr.perm[d]] = gen_fill(k.c, positive);
    return r;
}
inline int gen_dir(KCtx& k, int D) { return k.fr.perm[k.c.s.range(0, D - 1)]; }

#define NOTE(...) C.text = cat(__VA_ARGS__)

// ------------------------------------------------------------------ flux (K01)
template <int D, class T>
Call<T> gen_flux(KCtx& k)
{
    Call<T> C;
    Src& s = k.c.s;
    bool poisson = s.flip();
    Box b = gen_box(k, D);
    int g = gen_ghost(k, 1);
    auto dx = gen_dx<T>(k);
    Fill fu = gen_fill(k.c);
    Fills fb = gen_fills(k);
    C.name = poisson ? "poisson_flux" : "flux";
    C.cells = b.cells(D);
    auto* u = C.template cell<D>("u", k.fr, b, g);
    u->fill(fu);
    std::array<Field<T>*, 3> B{}, F{};
    for (int a = 0; a < D; a++) {
        if (!poisson) {
            B[a] = C.template face<D>("b", k.fr, b, a, 0);
            B[a]->fill(fb.f[a]);
        }
        F[a] = C.template face<D>("flux", k.fr, b, a, 0);
    }
    NOTE(D, "D ", show(b, D), " ghost=", g, show_dx<D>(dx), " u~", fu.cat, ":", fu.seed);
    C.model = [=] {
        for (int a = 0; a < D; a++) {
            Box fb = b;
            fb.hi[a]++;
            each<D>(fb, [&](const int* c) {
                MV d = (u->rd(c) - u->rd(Off(c, a, -1))) / MV(dx.v[a]);
                F[a]->wr(c, poisson ? d : B[a]->rd(c) * d);
            });
        }
    };
    C.run = [=](int impl) mutable {
        if (poisson)
            KCALL(F, poisson_flux, cellpoissonflux,
                  tc(split<D>(b), tp(dx.v, g, u->ptr()), ptrs<D, T>(F.data())));
        else
            KCALL(F, flux, celldiffusionflux,
                  tc(split<D>(b), tp(dx.v), ptrs<D, T>(B.data()), tp(g, u->ptr()),
                     ptrs<D, T>(F.data())));
    };
    return C;
}

// ------------------------------------------------------------------ apply / residual (K02)
template <int D, class T>
Call<T> gen_apply(KCtx& k)
{
    Call<T> C;
    Src& s = k.c.s;
    int kind = (int)s.range(0, 5); // 0 v1_res 1 v2_res 2 poisson_res 3 v1_apply 4 v2_apply 5 poisson_apply
    Box b = gen_box(k, D);
    int ga = gen_ghost(k), gu = gen_ghost(k), gf = gen_ghost(k), gr = gen_ghost(k);
    auto dx = gen_dx<T>(k);
    T alpha = gen_scalar<T>(k), beta = gen_scalar<T>(k);
    alpha *= (T)k.amul, beta *= (T)k.bmul;
    Fill fa = gen_fill(k.c), fu = gen_fill(k.c), ff = gen_fill(k.c);
    Fills fl = gen_fills(k);
    bool res = kind < 3, has_a = kind % 3 == 0, has_u = kind % 3 != 2;
    static const char* nm[] = {"v1_res", "v2_res", "poisson_res", "v1_apply", "v2_apply", "poisson_apply"};
    C.name = nm[kind];
    C.cells = b.cells(D);
    Field<T>*a = nullptr, *u = nullptr, *f = nullptr;
    if (has_a) (a = C.template cell<D>("a", k.fr, b, ga))->fill(fa);
    if (has_u) (u = C.template cell<D>("u", k.fr, b, gu))->fill(fu);
    if (res) (f = C.template cell<D>("f", k.fr, b, gf))->fill(ff);
    auto* r = C.template cell<D>("res", k.fr, b, gr);
    std::array<Field<T>*, 3> F{};
    for (int d = 0; d < D; d++) (F[d] = C.template face<D>("flux", k.fr, b, d, 0))->fill(fl.f[d]);
    NOTE(D, "D ", show(b, D), " ghosts a,u,f,r=", ga, ",", gu, ",", gf, ",", gr, " alpha=", alpha,
         " beta=", beta, show_dx<D>(dx));
    C.model = [=] {
        each<D>(b, [&](const int* c) {
            MV div(0);
            for (int d = 0; d < D; d++)
                div = div + (F[d]->rd(Off(c, d, 1)) - F[d]->rd(c)) / MV(dx.v[d]);
            MV react(0);
            if (has_u) {
                react = MV(alpha) * u->rd(c);
                if (has_a) react = react * a->rd(c);
            }
            MV v = res ? f->rd(c) + MV(beta) * div - react : react - MV(beta) * div;
            r->wr(c, v);
        });
    };
    C.run = [=](int impl) mutable {
        auto fp = ptrs<D, T>(F.data());
        auto P = pair<D>(b);
        T* d = dx.v;
        switch (kind) {
        case 0:
            KCALL(A, diffusion_v1_res, celldiffusionv1res,
                  tc(P, tp(alpha, beta, d, ga, a->ptr(), gu, u->ptr(), gf, f->ptr()), fp, tp(gr, r->ptr())));
            break;
        case 1:
            KCALL(A, diffusion_v2_res, celldiffusionv2res,
                  tc(P, tp(alpha, beta, d, gu, u->ptr(), gf, f->ptr()), fp, tp(gr, r->ptr())));
            break;
        case 2:
            KCALL(A, poisson_v1_res, cellpoissonv1res,
                  tc(P, tp(beta, d, gf, f->ptr()), fp, tp(gr, r->ptr())));
            break;
        case 3:
            KCALL(A, diffusion_v1_apply, celldiffusionv1apply,
                  tc(P, tp(alpha, beta, d, ga, a->ptr(), gu, u->ptr()), fp, tp(gr, r->ptr())));
            break;
        case 4:
            KCALL(A, diffusion_v2_apply, celldiffusionv2apply,
                  tc(P, tp(alpha, beta, d, gu, u->ptr()), fp, tp(gr, r->ptr())));
            break;
        case 5:
            KCALL(A, poisson_v2_apply, cellpoissonv2apply, tc(P, tp(beta, d), fp, tp(gr, r->ptr())));
            break;
        }
    };
    return C;
}

// ------------------------------------------------------------------ boundary filling (K03, K04)
// range of a boundary segment along a tangential direction; where it is not clipped, inside the patch
struct Seg {
    int lo, hi;
};
inline Seg gen_seg(KCtx& k, const Box& b, int a, bool inside = false)
{
    Src& s = k.c.s;
    int mode = s.weighted({4, 3, 3});
    int e = b.hi[a] - b.lo[a];
    int x = (int)s.draw(e + 1), y = (int)s.draw(e + 1);
    int ox = (int)s.draw(4), oy = (int)s.draw(4);
    if (ox == 3) ox = (int)s.range(3, 9);
    if (oy == 3) oy = (int)s.range(3, 9);
    if (x > y) std::swap(x, y);
    Seg r{b.lo[a], b.hi[a]};
    if (mode >= 1) r = {b.lo[a] + x, b.lo[a] + y};
    if (mode == 2 && !inside) {
        // may stick out of the patch on either side
        if (ox) r.lo = b.lo[a] - ox;
        if (oy) r.hi = b.hi[a] + oy;
    }
    if (!inside && s.chance(1, 20)) {
        // misses the patch: nothing is left after clipping
        r = s.flip() ? Seg{b.lo[a] - 1 - oy, b.lo[a] - 1 - std::min(ox, oy)} : Seg{b.hi[a] + 1 + std::min(ox, oy), b.hi[a] + 1 + oy};
        k.c.label("segment off the patch");
    }
    return r;
}

template <int D, class T>
Call<T> gen_bc(KCtx& k, int want_type = 0)
{
    Call<T> C;
    Src& s = k.c.s;
    bool poisson = s.flip();
    Box b = gen_box(k, D);
    int gu = gen_ghost(k, 1), gd = gen_ghost(k, 0);
    if (s.chance(1, 12)) gu = k.fr.extra_ghost;
    auto dx = gen_dx<T>(k);
    T alpha = gen_scalar<T>(k, true), beta = gen_scalar<T>(k, true);
    if (s.chance(1, 10)) beta = 0;
    else if (s.chance(1, 10)) alpha = 0;
    Fill fu = gen_fill(k.c);
    Fills fd = gen_fills(k, true);
    int type = 1;
    if (D > 1) type = want_type ? want_type : (int)s.range(1, D);
    if (D == 3 && want_type == 2 && s.chance(1, 3)) type = 3;
    int side = (int)s.draw(2);
    int cdir = (int)s.range(0, D - 1), a = k.fr.perm[cdir];
    int corner = (int)s.draw(4);
    int btype = s.pick({0, 1, 4});
    int order = (int)s.range(0, 2);
    if (order == 0 && !s.chance(1, 3)) order = 2;
    if (!k.symmetric && s.chance(1, 20)) btype = s.pick({2, 3, 5});
    if (!k.symmetric && s.chance(1, 20)) order = 3;
    if (k.symmetric && D == 2 && poisson && btype == 4) btype = 1; // exists for one direction only
    Seg segc[3], seg[3];
    for (int d = 0; d < 3; d++) segc[d] = gen_seg(k, b, k.fr.perm[d]);
    for (int d = 0; d < 3; d++) seg[k.fr.perm[d]] = segc[d];
    bool typical = !s.chance(1, 3);
    uint64_t place[3];
    for (int d = 0; d < 3; d++) place[k.fr.perm[d]] = s.draw(64);
    int wide = s.chance(1, 4) ? (int)s.range(1, 2) : 0;
    k.threads = gen_threads(k.c);
    if (D == 1) type = 1;

    int bLo[3], bHi[3];
    for (int d = 0; d < 3; d++) bLo[d] = seg[d].lo, bHi[d] = seg[d].hi;

    // which normal indices the rule needs: n, n+s, .., n+s*reach
    int face = 0, nd = 0, nrm[2] = {0, 0}, sg[2] = {0, 0}, reach = 1;
    if (type == 1) {
        face = 2 * a + side;
        nd = 1;
        nrm[0] = a;
        sg[0] = side ? -1 : 1;
        reach = (btype == 1) ? 1 : order == 2 ? 2 : order == 1 ? 1 : 0;
    } else {
        int pr = D == 3 ? (int)(type == 2 ? cdir : 0) : 0; // xy, xz, yz
        nd = 2;
        nrm[0] = pr == 2 ? 1 : 0;
        nrm[1] = pr == 0 ? 1 : 2;
        sg[0] = corner & 1 ? -1 : 1;
        sg[1] = corner & 2 ? -1 : 1;
        face = type == 2 ? 4 * pr + corner : corner + (side ? 4 : 0);
    }
    bool use_d = type == 1 && !poisson && btype == 4 && (order == 1 || order == 2);
    for (int q = 0; q < nd; q++) {
        int d = nrm[q];
        // ghost index n: array range, reach and (for Robin) coefficient range
        long l = (long)b.lo[d] - gu + (sg[q] < 0 ? reach : 0);
        long h = (long)b.hi[d] + gu - (sg[q] > 0 ? reach : 0);
        if (use_d) {
            int off = sg[q] > 0 ? 1 : 0;
            l = std::max(l, (long)b.lo[d] - gd - off);
            h = std::min(h, (long)b.hi[d] + 1 + gd - off);
        }
        if (l > h) throw Discard{};
        // with extra ghost cells the choice must not move: derive from unextended range
        long l0 = std::max(l, (long)b.lo[d] - (gu - k.fr.extra_ghost) + (sg[q] < 0 ? reach : 0));
        long h0 = std::min(h, (long)b.hi[d] + (gu - k.fr.extra_ghost) - (sg[q] > 0 ? reach : 0));
        if (use_d) {
            int off = sg[q] > 0 ? 1 : 0, g0 = gd - k.fr.extra_ghost;
            l0 = std::max(l0, (long)b.lo[d] - g0 - off);
            h0 = std::min(h0, (long)b.hi[d] + 1 + g0 - off);
        }
        if (l0 > h0) throw Discard{};
        long n = sg[q] > 0 ? (long)b.lo[d] - 1 : (long)b.hi[d] + 1;
        n = std::min(std::max(n, l0), h0);
        if (!typical) n = l0 + (long)(place[d] % (uint64_t)(h0 - l0 + 1));
        bLo[d] = bHi[d] = (int)n;
        // The face rules use only one end of the segment in the normal direction, and the
        // 3-D edge rules the lower one.
        if (D == 3 && type != 1) bHi[d] += wide;
    }
    if (D == 3 && type == 3) {
        // corner along z at the lower segment index
        int d = 2;
        long l = (long)b.lo[d] - gu, h = (long)b.hi[d] + gu;
        long e = k.fr.extra_ghost;
        long n = typical ? (side ? (long)b.hi[d] + 1 : (long)b.lo[d] - 1) : l + e + (long)(place[d] % (uint64_t)(h - l - 2 * e + 1));
        n = std::min(std::max(n, l + e), h - e);
        bLo[d] = bHi[d] = (int)n;
    }

    C.name = cat(poisson ? "poisson_bc" : "bc", " type", type, " btype", btype, " order", order);
    auto* u = C.template cell<D>("u", k.fr, b, gu);
    u->fill(fu);
    std::array<Field<T>*, 3> Dv{};
    if (!poisson)
        for (int d = 0; d < D; d++) (Dv[d] = C.template face<D>("d", k.fr, b, d, gd))->fill(fd.f[d]);

    Box t; // cells written
    for (int d = 0; d < D; d++) {
        t.lo[d] = std::max(bLo[d], b.lo[d]);
        t.hi[d] = std::min(bHi[d], b.hi[d]);
    }
    for (int q = 0; q < nd; q++) t.lo[nrm[q]] = t.hi[nrm[q]] = bLo[nrm[q]];
    if (D == 3 && type == 3) t.lo[2] = t.hi[2] = bLo[2];
    // the reference routines do not clip every segment to the patch
    bool within = true;
    for (int d = 0; d < D; d++) {
        bool normal = false;
        for (int q = 0; q < nd; q++) normal |= nrm[q] == d;
        if (D == 3 && type == 3 && d == 2) normal = true;
        if (!normal && (bLo[d] < b.lo[d] || bHi[d] > b.hi[d])) within = false;
    }
    C.fortran = within || (D == 3 && !poisson && type == 1);
    C.dir = a;
    C.special = poisson && D == 1;
    C.cells = t.cells(D);
    NOTE(D, "D ", show(b, D), " face=", face, " seg=[", bLo[0], D > 1 ? cat(",", bLo[1]) : "",
         D > 2 ? cat(",", bLo[2]) : "", "]..[", bHi[0], D > 1 ? cat(",", bHi[1]) : "",
         D > 2 ? cat(",", bHi[2]) : "", "] ghost u,d=", gu, ",", gd, " alpha=", alpha,
         " beta=", beta, show_dx<D>(dx));

    C.model = [=] {
        if (type == 1) {
            int sn = sg[0];
            T h = dx.v[a];
            int rule = -1; // 0 zero, 1 -u1, 2 quad, 3 neumann, 4 robin1, 5 robin2
            if (btype == 0) rule = order == 1 ? 1 : order == 2 ? 2 : (order == 0 && D == 2 && !poisson) ? 0 : -1;
            if (btype == 1) rule = 3;
            if (btype == 4) rule = order == 1 ? 4 : order == 2 ? 5 : -1;
            if (btype == 4 && poisson && D == 2 && a == 1) rule = -1;
            if (rule < 0) return;
            MV al(alpha), be(beta), H(h);
            each<D>(t, [&](const int* c) {
                auto u1 = [&] { return u->rd(Off(c, a, sn)); };
                auto u2 = [&] { return u->rd(Off(c, a, 2 * sn)); };
                MV d(1);
                if (rule >= 4 && !poisson) d = Dv[a]->rd(Off(c, a, sn > 0 ? 1 : 0));
                switch (rule) {
                case 0: u->wr(c, MV(0)); break;
                case 1: u->wr(c, -u1()); break;
                case 2: u->wr(c, MV(-2) * u1() + u2() / MV(3)); break;
                case 3: u->wr(c, u1()); break;
                case 4:
                    u->wr(c, (MV(2) * al * d - H * be) / (MV(2) * al * d + H * be) * u1());
                    break;
                case 5: {
                    MV den = MV(8) * al * d + MV(3) * be * H;
                    u->wr(c, (MV(8) * al * d - MV(6) * be * H) / den * u1() + be * H / den * u2());
                    break;
                }
                }
            });
        } else {
            each<D>(t, [&](const int* c) {
                Off x(c, nrm[0], sg[0]), y(c, nrm[1], sg[1]), xy(x, nrm[1], sg[1]);
                u->wr(c, u->rd(x) + u->rd(y) - u->rd(xy));
            });
        }
    };
    std::array<int, 3> L{bLo[0], bLo[1], bLo[2]}, Hh{bHi[0], bHi[1], bHi[2]};
    C.run = [=](int impl) mutable {
        auto P = pair<D>(b);
        auto sel = [&] {
            if constexpr (D == 1)
                return tp(L.data(), Hh.data(), order, face, btype, alpha, beta);
            else
                return tp(L.data(), Hh.data(), order, face, type, btype, alpha, beta);
        };
        if (poisson)
            KCALL(B, set_poisson_bc, cellsetpoissoncorrectionbc, tc(P, tp(dx.v, gu, u->ptr()), sel()));
        else
            KCALL(B, set_bc, cellsetcorrectionbc,
                  tc(P, tp(dx.v, gd), ptrs<D, T>(Dv.data()), tp(gu, u->ptr()), sel()));
    };
    return C;
}
template <int D, class T>
Call<T> gen_bc_face(KCtx& k)
{
    return gen_bc<D, T>(k, 1);
}
template <int D, class T>
Call<T> gen_bc_edge(KCtx& k)
{
    return gen_bc<D, T>(k, 2);
}

// ------------------------------------------------------------------ 2-D homogeneous / interior corner (K05)
template <class T>
Call<T> gen_homog(KCtx& k)
{
    constexpr int D = 2;
    Call<T> C;
    Src& s = k.c.s;
    Box b = gen_box(k, D);
    int face = (int)s.draw(4), a = face / 2, side = face % 2, t = 1 - a, sg = side ? -1 : 1;
    int emax = std::min(4, b.hi[a] - b.lo[a] + 2);
    int order = (int)s.range(1, emax);
    Fill fu = gen_fill(k.c);
    Seg sx = gen_seg(k, b, 0), sy = gen_seg(k, b, 1);
    std::array<int, 2> L{sx.lo, sy.lo}, H{sx.hi, sy.hi};
    int jn = s.weighted({3, 1, 1});
    k.threads = gen_threads(k.c);
    int n = side ? b.hi[a] + 1 : b.lo[a] - 1;
    // the normal entries of the segment are not used by the rule
    L[a] = jn == 0 ? n : jn == 1 ? b.lo[a] : n - 1;
    H[a] = jn == 0 ? n : jn == 1 ? b.hi[a] : n + 1;
    C.name = cat("homogeneous order", order);
    auto* u = C.template cell<D>("u", k.fr, b, 1);
    u->fill(fu);
    Box w;
    w.lo[a] = w.hi[a] = n;
    w.lo[t] = std::max(L[t], b.lo[t]);
    w.hi[t] = std::min(H[t], b.hi[t]);
    C.cells = w.cells(D) + 2;
    NOTE("2D ", show(b, D), " face=", face, " seg=[", L[0], ",", L[1], "]..[", H[0], ",", H[1], "]");
    C.model = [=] {
        if (order >= 1 && order <= 4)
            each<D>(w, [&](const int* c) {
                auto q = [&](int m) { return u->rd(Off(c, a, m * sg)); };
                switch (order) {
                case 1: u->wr(c, -q(1)); break;
                case 2: u->wr(c, MV(-2) * q(1) + q(2) / MV(3)); break;
                case 3: u->wr(c, MV(-3) * q(1) + q(2) - q(3) / MV(5)); break;
                case 4:
                    u->wr(c, MV(-4) * q(1) + MV(2) * q(2) - MV(4) / MV(5) * q(3) + q(4) / MV(7));
                    break;
                }
            });
        for (int e = 0; e < 2; e++) {
            int c[3] = {0, 0, 0};
            c[a] = n;
            c[t] = e ? b.hi[t] + 1 : b.lo[t] - 1;
            Off in(c, a, sg);
            in.c[t] += e ? -1 : 1;
            u->wr(c, u->rd(in));
        }
    };
    C.run = [=](int impl) mutable {
        if (impl == 0)
            cd_correct_bc_2d_cuda<T>::set_homogenous_bc(b.lo[0], b.lo[1], b.hi[0], b.hi[1], face,
                                                        L.data(), H.data(), order, u->ptr());
        else if constexpr (std::is_same_v<T, double>)
            cellsethomogenousbc2d_(b.lo[0], b.lo[1], b.hi[0], b.hi[1], face, L.data(), H.data(),
                                   order, u->ptr());
    };
    return C;
}
template <class T>
Call<T> gen_icorner(KCtx& k)
{
    constexpr int D = 2;
    Call<T> C;
    Src& s = k.c.s;
    Box b = gen_box(k, D);
    int g = gen_ghost(k, 1);
    auto dx = gen_dx<T>(k);
    int face = (int)s.draw(4);
    int order = (int)s.range(0, 3), type = (int)s.range(1, 2), btype = s.pick({0, 1, 4});
    Fill fu = gen_fill(k.c);
    Fills fd = gen_fills(k, true);
    bool typical = !s.chance(1, 3);
    uint64_t pl[2] = {s.draw(64), s.draw(64)};
    int wide = s.chance(1, 4) ? (int)s.range(1, 2) : 0;
    k.threads = gen_threads(k.c);
    int sg[2] = {face & 1 ? -1 : 1, face & 2 ? -1 : 1};
    std::array<int, 2> L, H;
    int pos[3] = {0, 0, 0};
    for (int d = 0; d < 2; d++) {
        int e = k.fr.extra_ghost;
        int l = b.lo[d] - g + e + (sg[d] < 0), h = b.hi[d] + g - e - (sg[d] > 0);
        int n = sg[d] > 0 ? b.lo[d] - 1 : b.hi[d] + 1;
        n = std::min(std::max(n, l), h);
        if (!typical) n = l + (int)(pl[d] % (uint64_t)(h - l + 1));
        L[d] = H[d] = pos[d] = n;
        // each rule uses one end of the segment per direction
        if (sg[d] > 0) H[d] += wide;
        else L[d] -= wide;
    }
    C.name = "interior corner";
    C.cells = 1;
    auto* u = C.template cell<D>("u", k.fr, b, g);
    u->fill(fu);
    std::array<Field<T>*, 3> Dv{};
    for (int d = 0; d < D; d++) (Dv[d] = C.template face<D>("d", k.fr, b, d, g))->fill(fd.f[d]);
    NOTE("2D ", show(b, D), " corner=", face, " at (", pos[0], ",", pos[1], ") ghost=", g);
    std::array<int, 3> P{pos[0], pos[1], 0};
    C.model = [=] {
        Off in(P.data(), 0, sg[0]);
        in.c[1] += sg[1];
        u->wr(P.data(), MV(-5) * u->rd(in));
    };
    C.run = [=](int impl) mutable {
        auto args = std::make_tuple(b.lo[0], b.hi[0], b.lo[1], b.hi[1], g, dx.v, Dv[0]->ptr(),
                                    Dv[1]->ptr(), u->ptr(), L.data(), H.data(), order, face, type,
                                    btype);
        if (impl == 0)
            std::apply(&cd_correct_bc_2d_cuda<T>::set_corner_bc, args);
        else if constexpr (std::is_same_v<T, double>)
            std::apply(&cellsetinteriorcornerbc2d_, args);
    };
    return C;
}

// ------------------------------------------------------------------ assembly (K06)
inline Box gen_outer(KCtx& k, const Box& b)
{
    Box r = b;
    for (int d = 0; d < 3; d++) {
        int a = k.fr.perm[d];
        r.lo[a] -= (int)k.c.s.weighted({4, 2, 1});
        r.hi[a] += (int)k.c.s.weighted({4, 2, 1});
    }
    return r;
}
template <int D, class T>
Call<T> gen_assemble(KCtx& k)
{
    Call<T> C;
    Src& s = k.c.s;
    int kind = (int)s.range(0, 4); // offdiag, poisson_offdiag, v1diag, v2diag, poisson_diag
    Box b = gen_box(k, D);
    Box ob = gen_outer(k, b);
    Gst g{gen_ghost(k)};
    if (k.node) g.g = 0;
    auto dx = gen_dx<T>(k);
    T alpha = gen_scalar<T>(k), beta = gen_scalar<T>(k);
    Fill fs = gen_fill(k.c), fa = gen_fill(k.c);
    Fills fb = gen_fills(k);
    k.threads = gen_threads(k.c);
    static const char* nm[] = {"offdiag", "poisson_offdiag", "v1diag", "v2diag", "poisson_diag"};
    C.name = nm[kind];
    C.cells = b.cells(D);
    auto* st = C.template stencil<D>("st", k.fr, b, g);
    st->fill(fs);
    Field<T>* a = nullptr;
    std::array<Field<T>*, 3> B{};
    if (kind == 2) (a = C.template cell<D>("a", k.fr, ob, 0))->fill(fa);
    if (kind == 0)
        for (int d = 0; d < D; d++) (B[d] = C.template face<D>("b", k.fr, ob, d, 0))->fill(fb.f[d]);
    NOTE(D, "D ", show(b, D), " coefficient box ", show(ob, D), " ghost=", g.g, " alpha=", alpha,
         " beta=", beta, show_dx<D>(dx));
    C.model = [=] {
        each<D>(b, [&](const int* c) {
            if (kind < 2)
                for (int d = 0; d < D; d++) {
                    MV f = -(MV(beta) / (MV(dx.v[d]) * MV(dx.v[d])));
                    st->wr(c, 1 + 2 * d, kind == 0 ? f * B[d]->rd(c) : f);
                    st->wr(c, 2 + 2 * d, kind == 0 ? f * B[d]->rd(Off(c, d, 1)) : f);
                }
            else {
                MV sum(0);
                for (int w = 1; w <= 2 * D; w++) sum = sum + st->rd(c, w);
                MV v = -sum;
                if (kind == 2) v = v + MV(alpha) * a->rd(c);
                if (kind == 3) v = v + MV(alpha);
                st->wr(c, 0, v);
            }
        });
    };
    C.run = [=](int impl) mutable {
        auto P = split<D>(b);
        auto O = split<D>(ob);
        T* d = dx.v;
        switch (kind) {
        case 0:
            KCALL(S, offdiag, celldiffusionoffdiag,
                  tc(P, O, tp(d, beta), ptrs<D, T>(B.data()), tp(g, st->ptr())));
            break;
        case 1: KCALL(S, poisson_offdiag, cellpoissonoffdiag, tc(P, tp(d, beta, g, st->ptr()))); break;
        case 2:
            KCALL(S, v1diag, celldiffusionv1diag, tc(P, O, tp(alpha, a->ptr(), g, st->ptr())));
            break;
        case 3: KCALL(S, v2diag, celldiffusionv2diag, tc(P, tp(alpha, g, st->ptr()))); break;
        case 4: KCALL(S, poisson_diag, cellpoissondiag, tc(P, tp(g, st->ptr()))); break;
        }
    };
    return C;
}

// ------------------------------------------------------------------ stencil adjustments (K07, K08)
// kinds: 0 adj_diag 1 adj_poisson_diag 2 adj_offdiag 3 adj_poisson_offdiag
//        4 adj_cf_diag 5 adj_poisson_cf_diag 6 adj_cf_offdiag 7 readj_offdiag 8 adj_cf_bdryrhs
template <int D, class T>
Call<T> gen_adjust(KCtx& k, int klo, int khi)
{
    Call<T> C;
    Src& s = k.c.s;
    int kind = (int)s.range(klo, khi);
    Box b = gen_box(k, D);
    Gst g{gen_ghost(k)};
    int gu = gen_ghost(k, 0);
    if (k.node) g.g = 0;
    auto dx = gen_dx<T>(k);
    T beta = gen_scalar<T>(k), dirf = gen_scalar<T>(k), neuf = gen_scalar<T>(k);
    Fill fs = gen_fill(k.c), fu = gen_fill(k.c);
    Fills fb = gen_fills(k, true);
    int dir = k.fr.perm[s.range(0, D - 1)], side = (int)s.draw(2);
    int btype = s.pick({0, 1, 4});
    int order = (int)s.range(1, 2);
    int r = (int)s.pick({2, 3, 4, 8, 1, 5, 6, 7, 16, 12, 64, 9});
    if (!k.symmetric && s.chance(1, 16)) btype = s.pick({2, 3});
    if (!k.symmetric && s.chance(1, 16)) order = s.pick({0, 3});
    if (k.symmetric && D == 2 && kind < 4 && btype == 4) btype = 1;
    Seg sc[3], sg[3];
    for (int d = 0; d < 3; d++) sc[d] = gen_seg(k, b, k.fr.perm[d], true);
    for (int d = 0; d < 3; d++) sg[k.fr.perm[d]] = sc[d];
    bool typical = !s.chance(1, 3);
    uint64_t place = s.draw(64);
    int wide = s.chance(1, 5) ? (int)s.range(1, 2) : 0;
    k.threads = gen_threads(k.c);

    Box p;
    for (int d = 0; d < D; d++) p.lo[d] = sg[d].lo, p.hi[d] = sg[d].hi;
    // cell adjusted in the normal direction
    int n = side ? b.hi[dir] : b.lo[dir];
    if (!typical) n = b.lo[dir] + (int)(place % (uint64_t)(b.hi[dir] - b.lo[dir] + 1));
    if (kind == 8) {
        int need = 2 * side - 1; // ghost value at n+need must exist
        if (n + need < b.lo[dir] - gu || n + need > b.hi[dir] + gu) {
            if (k.fr.extra_ghost) throw Discard{};
            gu = std::max(gu, 1);
        }
        if (n + need < b.lo[dir] - (gu - k.fr.extra_ghost) || n + need > b.hi[dir] + (gu - k.fr.extra_ghost)) throw Discard{};
    }
    p.lo[dir] = p.hi[dir] = n + 2 * side - 1;
    p.hi[dir] += wide; // the normal extent of the segment is not used
    Box t;
    for (int d = 0; d < D; d++) t.lo[d] = p.lo[d], t.hi[d] = p.hi[d];
    t.lo[dir] = t.hi[dir] = n;

    static const char* nm[] = {"adj_diag", "adj_poisson_diag", "adj_offdiag", "adj_poisson_offdiag",
                               "adj_cf_diag", "adj_poisson_cf_diag", "adj_cf_offdiag", "readj_offdiag", "adj_cf_bdryrhs"};
    C.name = kind < 4 ? cat(nm[kind], " btype", btype, " order", order) : cat(nm[kind], " order", order);
    C.cells = t.cells(D);
    C.dir = dir;
    bool hasb = kind == 0 || kind == 2 || kind == 4;
    auto* st = C.template stencil<D>("st", k.fr, b, g);
    st->fill(fs);
    std::array<Field<T>*, 3> B{};
    if (hasb)
        for (int d = 0; d < D; d++) (B[d] = C.template face<D>("b", k.fr, b, d, 0))->fill(fb.f[d]);
    Field<T>*u = nullptr, *rhs = nullptr;
    if (kind == 8) {
        (u = C.template cell<D>("u", k.fr, b, gu))->fill(fu);
        (rhs = C.template cell<D>("rhs", k.fr, b, 0))->fill(fs);
    }
    NOTE(D, "D ", show(b, D), " segment ", show(p, D), " dir=", dir, " side=", side, " r=", r,
         " ghost=", g.g, " beta=", beta, " dir_factor=", dirf, show_dx<D>(dx));
    const int U = 2 * dir + 1 + side, V = 2 * dir + 2 - side;
    C.model = [=] {
        T h0 = dx.v[dir];
        MV h(h0), be(beta);
        each<D>(t, [&](const int* c) {
            auto bb = [&](int sh) { return hasb ? B[dir]->rd(Off(c, dir, sh)) : MV(1); };
            switch (kind) {
            case 0:
            case 1:
                if (order != 2) return;
                if (btype == 4 && (D != 2 || dir == 0)) {
                    MV b = bb(side);
                    st->wr(c, 0, st->rd(c, 0) - (be / h * b) / (MV(3) * h + MV(16) * b));
                } else if (btype == 0 && (D == 3 || (D == 2 && kind == 0))) {
                    st->wr(c, 0, st->rd(c, 0) + be / (MV(3) * h * h) * bb(side));
                }
                return;
            case 2:
            case 3:
                if (btype == 4 && D == 2 && dir != 0) return;
                if (btype == 4 && order == 1)
                    st->wr(c, U, st->rd(c, U) * (MV(2) * h / (MV(4) * bb(side) + h)));
                else if (btype == 4 && order == 2) {
                    MV b = bb(side);
                    MV f = be * b / (h * (MV(3) * h + MV(16) * b));
                    st->wr(c, U, MV(-9) * f);
                    st->wr(c, V, st->rd(c, V) - f);
                } else if (btype == 0 && order == 1)
                    st->wr(c, U, st->rd(c, U) * MV(dirf));
                else if (btype == 0 && order == 2) {
                    st->wr(c, V, st->rd(c, V) + st->rd(c, U) / MV(3));
                    st->wr(c, U, st->rd(c, U) * MV(8) / MV(3));
                } else if (btype == 1)
                    st->wr(c, U, MV(0));
                return;
            case 4:
            case 5: {
                if (order != 1 && order != 2) return;
                MV dr = MV(2) * MV(r - 1) / MV(r + 1);
                MV f = order == 1 ? be / (MV(3) * h * h) : dr * be / (h * h);
                st->wr(c, 0, st->rd(c, 0) - f * bb(side));
                return;
            }
            case 6:
                if (order == 1)
                    st->wr(c, U, st->rd(c, U) * MV(2) / MV(3));
                else if (order == 2) {
                    st->wr(c, V, st->rd(c, V) - st->rd(c, U) * MV(r - 1) / MV(r + 3));
                    st->wr(c, U, st->rd(c, U) * MV(8) / (MV(r + 1) * MV(r + 3)));
                }
                return;
            case 7: st->wr(c, U, MV(0)); return;
            case 8:
                rhs->wr(c, rhs->rd(c) - st->rd(c, U) * u->rd(Off(c, dir, 2 * side - 1)));
                return;
            }
        });
    };
    C.run = [=](int impl) mutable {
        auto P = split<D>(b);
        auto Q = split<D>(p);
        auto BP = [&] { return ptrs<D, T>(B.data()); };
        auto ds = [&] {
            if constexpr (D == 1)
                return tp(side);
            else
                return tp(dir, side);
        };
        auto rds = [&] {
            if constexpr (D == 1)
                return tp(r, side);
            else
                return tp(r, dir, side);
        };
        T* d = dx.v;
        T* sp = st->ptr();
        switch (kind) {
        case 0:
            KCALL(S, adj_diag, adjcelldiffusiondiag, tc(P, Q, ds(), tp(btype, order, d, beta), BP(), tp(g, sp)));
            break;
        case 1:
            KCALL(S, adj_poisson_diag, adjcellpoissondiag, tc(P, Q, ds(), tp(btype, order, d, beta, g, sp)));
            break;
        case 2:
            KCALL(S, adj_offdiag, adjcelldiffusionoffdiag,
                  tc(P, Q, ds(), tp(btype, order, d, dirf, neuf, beta), BP(), tp(g, sp)));
            break;
        case 3:
            KCALL(S, adj_poisson_offdiag, adjcellpoissonoffdiag,
                  tc(P, Q, ds(), tp(btype, order, d, dirf, neuf, beta, g, sp)));
            break;
        case 4:
            KCALL(S, adj_cf_diag, adjcelldiffusioncfdiag, tc(P, Q, rds(), tp(order, d, beta), BP(), tp(g, sp)));
            break;
        case 5:
            KCALL(S, adj_poisson_cf_diag, adjcellpoissoncfdiag, tc(P, Q, rds(), tp(order, d, beta, g, sp)));
            break;
        case 6: KCALL(S, adj_cf_offdiag, adjcelldiffusioncfoffdiag, tc(P, Q, rds(), tp(order, g, sp))); break;
        case 7: KCALL(S, readj_offdiag, readjcelldiffusionoffdiag, tc(P, Q, ds(), tp(g, sp))); break;
        case 8:
            KCALL(S, adj_cf_bdryrhs, adjcelldiffusioncfbdryrhs,
                  tc(P, Q, ds(), tp(g, sp, gu, u->ptr(), rhs->ptr())));
            break;
        }
    };
    return C;
}
template <int D, class T>
Call<T> gen_phys(KCtx& k)
{
    return gen_adjust<D, T>(k, 0, 3);
}
template <int D, class T>
Call<T> gen_cf(KCtx& k)
{
    return gen_adjust<D, T>(k, 4, 8);
}

// ------------------------------------------------------------------ coarse to fine copy (K09)
template <class T>
Call<T> gen_c2f(KCtx& k)
{
    constexpr int D = 3;
    Call<T> C;
    Src& s = k.c.s;
    bool corner = s.chance(1, 5);
    int axis = (int)s.draw(3);
    std::array<int, 3> ratio;
    for (int d = 0; d < 3; d++) ratio[d] = (int)s.pick({2, 4, 3, 1, 5, 8, 6, 7, 16, 10, 32, 9});
    int g = gen_ghost(k, 0);
    Fill fc = gen_fill(k.c), ff = gen_fill(k.c);
    // fine edge
    Box fe, ce, fb, cb;
    int lc = s.weighted({2, 4, 2});
    int r = lc == 0 ? 0 : lc == 1 ? 20 : 5000;
    bool longedge = s.chance(1, 10);
    for (int d = 0; d < 3; d++) {
        fe.lo[d] = (int)s.around(-r, r, 0);
        int e = d == axis && !corner ? (int)s.range(1, longedge ? 600 : 20) : 1;
        fe.hi[d] = fe.lo[d] + e - 1;
        // Coarse coordinates off the axis are whatever the caller names
        auto fl = [](int x, int q) { return x >= 0 ? x / q : -((-x + q - 1) / q); };
        ce.lo[d] = fl(fe.lo[d], ratio[d]);
        ce.hi[d] = fl(fe.hi[d], ratio[d]);
        if (d != axis || corner) {
            ce.lo[d] += (int)s.around(-2, 2, 0);
            ce.hi[d] = ce.lo[d] + (int)s.weighted({4, 1});
            fe.hi[d] = fe.lo[d] + (int)s.weighted({4, 1});
        }
        // storage boxes; edges may lie in the ghost layers
        int gl = (int)s.range(0, g + 2), gh = (int)s.range(0, g + 2);
        fb.lo[d] = fe.lo[d] - gl + g;
        fb.hi[d] = std::max(fe.hi[d] + gh - g, fb.lo[d]);
        int cl = (int)s.range(0, g + 2), ch = (int)s.range(0, g + 2);
        cb.lo[d] = ce.lo[d] - cl + g;
        cb.hi[d] = std::max(ce.hi[d] + ch - g, cb.lo[d]);
    }
    k.threads = gen_threads(k.c);
    for (int d = 0; d < 3; d++) {
        int sh = k.fr.shift[d], rs = sh * ratio[d];
        for (int* p : {&fe.lo[d], &fe.hi[d], &fb.lo[d], &fb.hi[d]}) *p += rs;
        for (int* p : {&ce.lo[d], &ce.hi[d], &cb.lo[d], &cb.hi[d]}) *p += sh;
    }
    C.name = corner ? "copy_corner" : cat("copy axis", axis);
    auto* c = C.template cell<D>("coarse", k.fr, cb, g);
    Frame ffr = k.fr;
    for (int d = 0; d < 3; d++) ffr.shift[d] *= ratio[d];
    auto* f = C.template cell<D>("fine", ffr, fb, g);
    c->fill(fc);
    f->fill(ff);
    C.cells = corner ? 1 : fe.hi[axis] - fe.lo[axis] + 1;
    NOTE("fine edge ", show(fe, 3), " coarse edge ", show(ce, 3), " fine box ", show(fb, 3),
         " coarse box ", show(cb, 3), " ghost=", g, " ratio=", ratio[0], ",", ratio[1], ",", ratio[2]);
    C.model = [=] {
        int x[3] = {fe.lo[0], fe.lo[1], fe.lo[2]};
        int y[3] = {ce.lo[0], ce.lo[1], ce.lo[2]};
        if (corner) {
            f->wr(x, c->rd(y));
            return;
        }
        for (x[axis] = fe.lo[axis]; x[axis] <= fe.hi[axis]; x[axis]++) {
            y[axis] = (int)std::floor((double)x[axis] / ratio[axis]);
            f->wr(x, c->rd(y));
        }
    };
    C.run = [=](int impl) mutable {
        auto boxes = tc(pair<3>(cb), pair<3>(fb));
        auto head = tc(pair<3>(ce), pair<3>(fe));
        if (corner) {
            auto args = tc(head, boxes, tp(g, c->ptr(), f->ptr()));
            if (impl == 0)
                std::apply(&coarse_to_fine<T>::copy_corner, args);
            else if constexpr (std::is_same_v<T, double>)
                std::apply(&copycoarsetofinecorner3d_, args);
        } else {
            auto args = tc(head, tp(axis), boxes, tp(g, ratio.data(), c->ptr(), f->ptr()));
            if (impl == 0)
                std::apply(&coarse_to_fine<T>::copy, args);
            else if constexpr (std::is_same_v<T, double>)
                std::apply(&copycoarsetofine3d_, args);
        }
    };
    return C;
}
