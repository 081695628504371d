// L01..L05: the Fortran linear-solver routines (smoothers, stencil application, level
// right-hand sides) and the node-centred routines, against reference models.
#include "kgen.hpp"

static void judge(Ctx& c, Call<double>& C, int impl = 1)
{
    c.note(C.name, " ", C.text);
    C.model();
    long written = 0;
    for (auto& f : C.fields) {
        f->poison();
        for (auto x : f->fl) written += (x >> 1) & 1;
    }
    c.label(C.name);
    if (written >= 2) c.nontrivial = true;
    if (written == 0) c.label("writes nothing");
    for (auto& f : C.fields) f->reset();
    C.run(impl);
    for (auto& f : C.fields) f->check("Fortran", C.tolk);
}

// the routines of one dimension by argument tuple
#define LCALL(FBASE, ARGS)                      \
    do {                                        \
        auto args_ = ARGS;                      \
        if constexpr (D == 1)                   \
            std::apply(&FBASE##1d_, args_);     \
        else if constexpr (D == 2)              \
            std::apply(&FBASE##2d_, args_);     \
        else                                    \
            std::apply(&FBASE##3d_, args_);     \
    } while (0)
#define LCALL12(FBASE, ARGS)                    \
    do {                                        \
        auto args_ = ARGS;                      \
        if constexpr (D == 1)                   \
            std::apply(&FBASE##1d_, args_);     \
        else if constexpr (D == 2)              \
            std::apply(&FBASE##2d_, args_);     \
    } while (0)

// array with `n` leading components per cell, numbered from 0
template <int D>
Field<double>* comp(Call<double>& C, const char* name, int n, const Box& b, int g)
{
    auto* f = C.field(name, Frame());
    f->nd = D + 1;
    f->dim[0] = 3;
    f->lo[3] = 0;
    f->hi[3] = n - 1;
    for (int d = 0; d < D; d++) {
        f->dim[d + 1] = d;
        f->lo[d] = b.lo[d] - g;
        f->hi[d] = b.hi[d] + g;
    }
    f->layout();
    return f;
}

struct Offsets {
    int n = 0, D = 0;
    std::vector<int> t; // D per entry
    int reach[3] = {0, 0, 0};
    void add(int x, int y, int z)
    {
        int v[3] = {x, y, z};
        for (int d = 0; d < D; d++) {
            t.push_back(v[d]);
            reach[d] = std::max(reach[d], std::abs(v[d]));
        }
        n++;
    }
    struct At {
        int c[3];
        operator const int*() const { return c; }
    };
    At at(const int* c, int s) const
    {
        At a{{c[0], c[1], c[2]}};
        for (int d = 0; d < D; d++) a.c[d] += t[s * D + d];
        return a;
    }
    bool has(const int* v) const
    {
        for (int s = 0; s < n; s++) {
            bool eq = true;
            for (int d = 0; d < D; d++) eq &= t[s * D + d] == v[d];
            if (eq) return true;
        }
        return false;
    }
    std::string show() const
    {
        std::string r = " offsets";
        for (int s = 0; s < n; s++) {
            r += " (";
            for (int d = 0; d < D; d++) r += cat(d ? "," : "", t[s * D + d]);
            r += ")";
        }
        return r;
    }
    int maxreach() const { return std::max(reach[0], std::max(reach[1], reach[2])); }
};
static void add_star(Offsets& o)
{
    for (int d = 0; d < o.D; d++)
        for (int q = -1; q <= 1; q += 2) {
            int v[3] = {0, 0, 0};
            v[d] = q;
            o.add(v[0], v[1], v[2]);
        }
}
// diag: the first entry is the cell itself; uniq: no offset twice
static Offsets gen_offsets(Src& s, int D, bool diag, bool uniq, int maxr)
{
    Offsets o;
    o.D = D;
    int kind = s.weighted({4, 3, 1});
    if (kind == 0) {
        o.add(0, 0, 0);
        add_star(o);
    } else if (kind == 1) {
        int n = (int)s.range(1, s.chance(1, 6) ? 40 : 9);
        if (maxr > 1 && s.chance(1, 6)) maxr += 2;
        if (diag) o.add(0, 0, 0);
        for (int i = 0; i < n; i++) {
            int v[3] = {0, 0, 0};
            for (int d = 0; d < D; d++) v[d] = (int)s.around(-maxr, maxr, 0);
            if ((diag && !v[0] && !v[1] && !v[2]) || (uniq && o.has(v))) continue;
            o.add(v[0], v[1], v[2]);
        }
        if (!o.n) o.add(0, 0, 0);
    } else {
        o.add(0, 0, 0);
        for (int z = D > 2 ? -1 : 0; z <= (D > 2); z++)
            for (int y = D > 1 ? -1 : 0; y <= (D > 1); y++)
                for (int x = -1; x <= 1; x++)
                    if (x || y || z) o.add(x, y, z);
    }
    return o;
}
static Box grow(const Box& b, const Offsets& o)
{
    Box r = b;
    for (int d = 0; d < 3; d++) r.lo[d] -= o.reach[d], r.hi[d] += o.reach[d];
    return r;
}
// rows with a dominant first entry most of the time
template <int D>
void dominate(Src& s, Field<double>* st, const Box& b, int n, const Fill& f, uint64_t seed)
{
    int mode = s.weighted({4, 1});
    each<D>(b, [&](const int* c) {
        double sum = 0;
        for (int w = 1; w < n; w++) sum += std::fabs(st->init[st->idx(c, w)]);
        uint64_t h = mix(mix(seed, (uint64_t)c[0]), mix((uint64_t)c[1], (uint64_t)c[2]));
        double e = 0.5 + (double)(h % 1000) / 500.0;
        double v = mode == 0 ? sum * (1.0 + (double)(h % 7) / 4) + e : e * (1 + (f.cat == 0) * 3);
        st->init[st->idx(c, 0)] = (h >> 40) % 8 == 0 ? -v : v;
    });
}
static Box lbox(KCtx& k, int D)
{
    k.big = k.c.s.chance(1, 8);
    return gen_box(k, D);
}
// weights given as single-precision literals in 2-D are accepted to that precision
template <int D>
MV weight()
{
    if (D == 1) return MV(2) / MV(3);
    MV w = MV(0.8L);
    w.ex = false;
    if (D == 2) w.m += 5e-8L / (64 * std::numeric_limits<double>::epsilon());
    return w;
}

// ------------------------------------------------------------------ point smoothers (L01)
template <int D>
Call<double> gen_smooth(KCtx& k)
{
    Call<double> C;
    Src& s = k.c.s;
    int kind = s.weighted({2, 2, 4, D == 1 ? 0 : 2, D == 2 ? 2 : 0}); // jacobi gs rbgs fixed(5/7) 9-point
    Box b = lbox(k, D);
    Offsets o;
    if (kind < 3)
        o = gen_offsets(s, D, true, false, 3);
    else {
        o.D = D;
        o.add(0, 0, 0);
        add_star(o);
        if (kind == 4)
            for (int y = -1; y <= 1; y += 2)
                for (int x = -1; x <= 1; x += 2) o.add(x, y, 0);
    }
    int color = (int)s.draw(s.chance(1, 4) ? 6 : 2);
    Box sb = gen_outer(k, b), fb = gen_outer(k, b), ub = gen_outer(k, grow(b, o));
    Fill fs = gen_fill(k.c), ff = gen_fill(k.c), fu = gen_fill(k.c);
    static const char* nm[] = {"jacobi", "gs", "rbgs", "fixed rbgs", "nine-point rbgs"};
    C.name = cat(nm[kind], " ", D, "D");
    auto* st = comp<D>(C, "stencil", o.n, sb, 0);
    st->fill(fs);
    dominate<D>(s, st, sb, o.n, fs, fs.seed);
    auto* f = C.template cell<D>("f", k.fr, fb, 0);
    f->fill(ff);
    auto* u = C.template cell<D>("u", k.fr, ub, 0);
    u->fill(fu);
    C.text = cat("box ", show(b, D), " stencil box ", show(sb, D), " f box ", show(fb, D), " u box ",
                 show(ub, D), " color=", color, o.show());
    C.model = [=] {
        auto relax = [&](const int* c, int from) {
            MV r = f->rd(c);
            for (int q = from; q < o.n; q++) r = r - st->rd(c, q) * u->rd(o.at(c, q));
            return r / st->rd(c, 0);
        };
        if (kind == 0) {
            std::vector<MV> r;
            each<D>(b, [&](const int* c) { r.push_back(relax(c, 0)); });
            long i = 0;
            each<D>(b, [&](const int* c) { u->wr(c, u->rd(c) + weight<D>() * r[i++]); });
            return;
        }
        each<D>(b, [&](const int* c) {
            if (kind >= 2) {
                long q = (long)c[0] - b.lo[0] + color;
                if (D > 1) q += c[1];
                if (D > 2) q += c[2];
                if (q % 2 != 0) return;
            }
            u->wr(c, relax(c, 1));
        });
    };
    C.run = [=](int) mutable {
        auto P = pair<D>(b);
        auto tail = tc(pair<D>(sb), tp((const double*)st->ptr()), pair<D>(fb), tp((const double*)f->ptr()),
                       pair<D>(ub), tp(u->ptr()));
        auto tab = tp(o.n, (const int*)o.t.data());
        if (kind == 0)
            LCALL(celljacobi, tc(P, tab, tail));
        else if (kind == 1)
            LCALL(cellgs, tc(P, tab, tail));
        else if (kind == 2)
            LCALL(cellrbgs, tc(P, tp(color), tab, tail));
        else if constexpr (D == 2) {
            auto a = tc(P, tp(color), tail);
            if (kind == 3)
                std::apply(&cells5rbgs2d_, a);
            else
                std::apply(&cells9rbgs2d_, a);
        } else if constexpr (D == 3) {
            auto a = tc(P, tp(color), tail);
            std::apply(&cells7rbgs3d_, a);
        }
    };
    return C;
}

// ------------------------------------------------------------------ block smoothers (L02)
// solve in reference arithmetic; A is diagonally dominant
static std::vector<MV> solve(std::vector<std::vector<MV>> A, std::vector<MV> b)
{
    int n = (int)b.size();
    for (int p = 0; p < n; p++)
        for (int i = p + 1; i < n; i++) {
            if (A[i][p].v == 0) continue;
            MV q = A[i][p] / A[p][p];
            for (int j = p; j < n; j++) A[i][j] = A[i][j] - q * A[p][j];
            b[i] = b[i] - q * b[p];
        }
    for (int i = n - 1; i >= 0; i--) {
        for (int j = i + 1; j < n; j++) b[i] = b[i] - A[i][j] * b[j];
        b[i] = b[i] / A[i][i];
    }
    // normwise bound: row exchanges mix the errors of the components
    long double m = 0;
    for (auto& x : b) m = std::max(m, x.m);
    for (auto& x : b) x.m = m, x.ex = false;
    return b;
}
template <int D>
Call<double> gen_block1(KCtx& k)
{
    Call<double> C;
    Src& s = k.c.s;
    int nu = (int)s.range(1, 2);
    Box b = lbox(k, D);
    int gf = gen_ghost(k), gu = gen_ghost(k);
    Fill fs = gen_fill(k.c), ff[2] = {gen_fill(k.c), gen_fill(k.c)}, fu[2] = {gen_fill(k.c), gen_fill(k.c)};
    C.name = cat("block ", nu, "x", nu, " ", D, "D");
    auto* a = comp<D>(C, "a", nu * nu, b, 0);
    a->fill(fs);
    each<D>(b, [&](const int* c) {
        uint64_t h = mix(mix(fs.seed, (uint64_t)c[0]), mix((uint64_t)c[1], 77));
        double e = (0.5 + (double)(h % 1000) / 500.0) * (h >> 40 & 1 ? -1 : 1);
        if (nu == 1)
            a->init[a->idx(c, 0)] = e;
        else {
            double x = a->init[a->idx(c, 1)], y = a->init[a->idx(c, 2)];
            double m = 1 + std::max(std::fabs(x), std::fabs(y));
            a->init[a->idx(c, 0)] = e * m * 3;
            a->init[a->idx(c, 3)] = (0.5 + (double)(h >> 20 & 255) / 128.0) * m * 3;
        }
    });
    std::array<Field<double>*, 2> f{}, u{};
    for (int q = 0; q < nu; q++) {
        (f[q] = C.template cell<D>(q ? "f1" : "f0", k.fr, b, gf))->fill(ff[q]);
        (u[q] = C.template cell<D>(q ? "u1" : "u0", k.fr, b, gu))->fill(fu[q]);
    }
    C.text = cat("box ", show(b, D), " ghost f,u=", gf, ",", gu);
    C.model = [=] {
        each<D>(b, [&](const int* c) {
            MV w = weight<D>();
            if (nu == 1) {
                u[0]->wr(c, u[0]->rd(c) + w * f[0]->rd(c) / a->rd(c, 0));
                return;
            }
            MV A[4];
            for (int q = 0; q < 4; q++) A[q] = a->rd(c, q);
            MV det = A[0] * A[3] - A[1] * A[2];
            MV x = (A[3] * f[0]->rd(c) - A[1] * f[1]->rd(c)) / det;
            MV y = (A[0] * f[1]->rd(c) - A[2] * f[0]->rd(c)) / det;
            u[0]->wr(c, u[0]->rd(c) + w * x);
            u[1]->wr(c, u[1]->rd(c) + w * y);
        });
    };
    C.run = [=](int) mutable {
        auto P = pair<D>(b);
        if (nu == 1)
            LCALL12(cellblock1x1jacobi, tc(P, tp(a->ptr(), gf, f[0]->ptr(), gu, u[0]->ptr())));
        else
            LCALL12(cellblock2x2jacobi, tc(P, tp(a->ptr(), gf, f[0]->ptr(), f[1]->ptr(), gu, u[0]->ptr(), u[1]->ptr())));
    };
    return C;
}
static Call<double> gen_coupled(KCtx& k)
{
    constexpr int D = 3;
    Call<double> C;
    Src& s = k.c.s;
    int nd = (int)s.range(1, s.chance(1, 6) ? 7 : 4);
    Box b = lbox(k, D);
    while (b.cells(3) > 1500) b.hi[0] = b.lo[0] + (b.hi[0] - b.lo[0]) / 2, b.hi[1] = b.lo[1] + (b.hi[1] - b.lo[1]) / 2,
                              b.hi[2] = b.lo[2] + (b.hi[2] - b.lo[2]) / 2;
    Offsets o = gen_offsets(s, D, true, false, 2);
    int gf = gen_ghost(k), gu = gen_ghost(k, o.maxreach()), gr = gen_ghost(k);
    Fill fs = gen_fill(k.c), ff = gen_fill(k.c), fu = gen_fill(k.c), fr = gen_fill(k.c);
    C.name = cat("coupled block ndof ", nd);
    C.tolk = 1e5; // the reference LU pivots on rows of different scale: normwise bound
    auto* st = comp<D>(C, "stencil", o.n * nd * nd, b, 0); // entry s of block element q at s+n*q
    st->fill(fs);
    auto at = [o](int e, int q) { return e + o.n * q; };
    each<D>(b, [&](const int* c) {
        for (int i = 0; i < nd; i++) {
            double sum = 0;
            for (int j = 0; j < nd; j++)
                if (j != i) sum += std::fabs(st->init[st->idx(c, at(0, i + nd * j))]);
            for (int e = 1; e < o.n; e++)
                for (int j = 0; j < nd; j++) sum += std::fabs(st->init[st->idx(c, at(e, i + nd * j))]);
            uint64_t h = mix(mix(fs.seed, (uint64_t)c[0]), mix((uint64_t)c[1], (uint64_t)(c[2] * 8 + i)));
            st->init[st->idx(c, at(0, i + nd * i))] = (1.5 * sum + 0.5 + (double)(h % 1000) / 500.0) * (h >> 40 & 1 ? -1 : 1);
        }
    });
    auto* f = comp<D>(C, "f", nd, b, gf);
    auto* u = comp<D>(C, "u", nd, b, gu);
    auto* r = comp<D>(C, "r", nd, b, gr);
    f->fill(ff), u->fill(fu), r->fill(fr);
    C.text = cat("box ", show(b, D), " ghost f,u,r=", gf, ",", gu, ",", gr, o.show());
    C.model = [=] {
        each<D>(b, [&](const int* c) {
            std::vector<std::vector<MV>> A(nd, std::vector<MV>(nd));
            std::vector<MV> x(nd);
            for (int i = 0; i < nd; i++) {
                x[i] = f->rd(c, i);
                for (int e = 1; e < o.n; e++)
                    for (int j = 0; j < nd; j++) x[i] = x[i] - st->rd(c, at(e, i + nd * j)) * u->rd(o.at(c, e), j);
                for (int j = 0; j < nd; j++) A[i][j] = st->rd(c, at(0, i + nd * j));
            }
            x = solve(A, x);
            for (int i = 0; i < nd; i++) {
                r->wr(c, i, x[i]);
                u->wr(c, i, u->rd(c, i) + x[i]);
            }
        });
    };
    C.run = [=](int) mutable {
        auto a = tc(pair<3>(b), tp(o.n, (const int*)o.t.data(), (const double*)st->ptr(), nd, gf, (const double*)f->ptr(),
                                   gu, u->ptr(), gr, r->ptr()));
        std::apply(&ccellblkjacobi3d_, a);
    };
    return C;
}
static Call<double> gen_blocks(KCtx& k)
{
    constexpr int D = 3;
    Call<double> C;
    Src& s = k.c.s;
    int size[3], num[3], first[3], after[3];
    Box b;
    int lc = s.weighted({3, 4, 2});
    for (int d = 0; d < 3; d++) {
        size[d] = (int)s.range(1, s.chance(1, 8) ? 5 : 3);
        num[d] = (int)s.range(1, s.chance(1, 8) ? 5 : 3);
        first[d] = (int)s.weighted({5, 2, 1});
        after[d] = (int)s.weighted({5, 2, 1});
        int R = lc == 0 ? 0 : lc == 1 ? 9 : 1000;
        b.lo[d] = (int)s.around(-R, R, 0);
        b.hi[d] = b.lo[d] + first[d] + num[d] * size[d] + after[d] - 1;
    }
    std::array<std::vector<int>, 3> disp;
    for (int d = 0; d < 3; d++)
        for (int q = 0; q < num[d]; q++) disp[d].push_back(first[d] + q * size[d]);
    Offsets o = gen_offsets(s, D, true, true, 2);
    Box fb = gen_outer(k, b), ub = gen_outer(k, grow(b, o));
    Fill fs = gen_fill(k.c), ff = gen_fill(k.c), fu = gen_fill(k.c);
    C.name = "cell blocks";
    C.tolk = 1e5;
    auto* st = comp<D>(C, "stencil", o.n, b, 0);
    st->fill(fs);
    each<D>(b, [&](const int* c) {
        double sum = 0;
        for (int w = 1; w < o.n; w++) sum += std::fabs(st->init[st->idx(c, w)]);
        uint64_t h = mix(mix(fs.seed, (uint64_t)c[0]), mix((uint64_t)c[1], (uint64_t)c[2]));
        st->init[st->idx(c, 0)] = (1.25 * sum + 0.5 + (double)(h % 1000) / 500.0) * ((h >> 40) % 4 == 0 ? -1 : 1);
    });
    auto* f = C.template cell<D>("f", k.fr, fb, 0);
    auto* u = C.template cell<D>("u", k.fr, ub, 0);
    f->fill(ff), u->fill(fu);
    std::array<int, 3> sz{size[0], size[1], size[2]}, nm{num[0], num[1], num[2]}, fi{first[0], first[1], first[2]};
    C.text = cat("box ", show(b, D), " block size ", sz[0], "x", sz[1], "x", sz[2], " blocks ", nm[0], "x", nm[1], "x", nm[2],
                 " first at +", fi[0], ",", fi[1], ",", fi[2], " f box ", show(fb, D), " u box ", show(ub, D), o.show());
    C.model = [=] {
        // all residuals use the old solution, so read before anything is written
        std::vector<std::pair<std::array<int, 3>, MV>> upd;
        int q[3];
        for (q[2] = 0; q[2] < nm[2]; q[2]++)
            for (q[1] = 0; q[1] < nm[1]; q[1]++)
                for (q[0] = 0; q[0] < nm[0]; q[0]++) {
                    std::vector<std::array<int, 3>> cells;
                    int L[3];
                    for (int d = 0; d < 3; d++) L[d] = b.lo[d] + fi[d] + q[d] * sz[d];
                    for (int z = 0; z < sz[2]; z++)
                        for (int y = 0; y < sz[1]; y++)
                            for (int x = 0; x < sz[0]; x++) cells.push_back({L[0] + x, L[1] + y, L[2] + z});
                    int n = (int)cells.size();
                    std::vector<std::vector<MV>> A(n, std::vector<MV>(n, MV(0)));
                    std::vector<MV> r(n);
                    for (int i = 0; i < n; i++) {
                        const int* c = cells[i].data();
                        r[i] = f->rd(c);
                        for (int e = 0; e < o.n; e++) {
                            auto t = o.at(c, e);
                            r[i] = r[i] - st->rd(c, e) * u->rd(t);
                            for (int j = 0; j < n; j++)
                                if (cells[j][0] == t.c[0] && cells[j][1] == t.c[1] && cells[j][2] == t.c[2]) A[i][j] = st->rd(c, e);
                        }
                    }
                    r = solve(A, r);
                    for (int i = 0; i < n; i++) upd.push_back({cells[i], r[i]});
                }
        for (auto& p : upd) u->wr(p.first.data(), u->rd(p.first.data()) + weight<3>() * p.second);
    };
    C.run = [=](int) mutable {
        auto a = tc(pair<3>(b), tp(o.n, (const int*)o.t.data(), (const double*)st->ptr()), pair<3>(fb),
                    tp((const double*)f->ptr()), pair<3>(ub), tp(u->ptr()),
                    tp((const int*)disp[0].data(), nm[0], sz[0], (const int*)disp[1].data(), nm[1], sz[1],
                       (const int*)disp[2].data(), nm[2], sz[2]));
        std::apply(&cellblockjacobi3d_, a);
    };
    return C;
}

// ------------------------------------------------------------------ stencil application (L03)
template <int D>
Call<double> gen_applyst(KCtx& k)
{
    Call<double> C;
    Src& s = k.c.s;
    bool point = s.chance(1, 4);
    Box b = lbox(k, D);
    Offsets o = gen_offsets(s, D, false, false, 3);
    int gf = gen_ghost(k), gu = gen_ghost(k, o.maxreach()), gr = gen_ghost(k);
    double a = gen_scalar<double>(k), bb = gen_scalar<double>(k);
    Fill fs = gen_fill(k.c), ff = gen_fill(k.c), fu = gen_fill(k.c);
    Box t = b;
    if (point)
        for (int d = 0; d < D; d++) t.lo[d] = t.hi[d] = b.lo[d] + (int)s.draw(b.hi[d] - b.lo[d] + 1);
    C.name = cat(point ? "apply at point " : "apply on patch ", D, "D");
    auto* st = comp<D>(C, "stencil", o.n, b, 0);
    st->fill(fs);
    auto* f = C.template cell<D>("f", k.fr, b, gf);
    auto* u = C.template cell<D>("u", k.fr, b, gu);
    auto* r = C.template cell<D>("r", k.fr, b, gr);
    f->fill(ff), u->fill(fu);
    C.text = cat("box ", show(b, D), " cells ", show(t, D), " ghost f,u,r=", gf, ",", gu, ",", gr, " a=", a, " b=", bb, o.show());
    C.model = [=] {
        each<D>(t, [&](const int* c) {
            MV x = MV(bb) * f->rd(c);
            for (int e = 0; e < o.n; e++) x = x + MV(a) * st->rd(c, e) * u->rd(o.at(c, e));
            x.ex = false;
            r->wr(c, x);
        });
    };
    C.run = [=](int) mutable {
        auto tail = tp(o.n, (const int*)o.t.data(), (const double*)st->ptr(), a, bb, gf, (const double*)f->ptr(), gu,
                       (const double*)u->ptr(), gr, r->ptr());
        if (point) {
            if constexpr (D == 1)
                LCALL(applystencilatpoint, tc(pair<D>(b), tp(t.lo[0]), tail));
            else if constexpr (D == 2)
                LCALL(applystencilatpoint, tc(pair<D>(b), tp(t.lo[0], t.lo[1]), tail));
            else
                LCALL(applystencilatpoint, tc(pair<D>(b), tp(t.lo[0], t.lo[1], t.lo[2]), tail));
        } else
            LCALL(applystencilonpatch, tc(pair<D>(b), tail));
    };
    return C;
}

// ------------------------------------------------------------------ level right-hand sides (L04)
template <int D>
Call<double> gen_crsfine(KCtx& k)
{
    Call<double> C;
    Src& s = k.c.s;
    Box b = lbox(k, D);
    Offsets o = gen_offsets(s, D, false, false, 1);
    int gu = gen_ghost(k, 1);
    int dir = (int)s.range(0, D - 1), side = (int)s.draw(2);
    Fill fs = gen_fill(k.c), fu = gen_fill(k.c), ff = gen_fill(k.c);
    Box p, t;
    for (int d = 0; d < D; d++) {
        Seg g = gen_seg(k, b, d, true);
        p.lo[d] = g.lo, p.hi[d] = g.hi;
    }
    bool typical = !s.chance(1, 3);
    int n = side ? b.hi[dir] : b.lo[dir];
    int place = (int)s.draw(64), wide = s.chance(1, 5) ? 2 : 0;
    if (!typical) n = b.lo[dir] + place % (b.hi[dir] - b.lo[dir] + 1);
    t = p;
    t.lo[dir] = t.hi[dir] = n;
    p.lo[dir] = p.hi[dir] = n + 2 * side - 1;
    p.hi[dir] += wide; // not used
    C.name = cat("level interface rhs ", D, "D");
    auto* st = comp<D>(C, "stencil", o.n, b, 0);
    st->fill(fs);
    auto* u = C.template cell<D>("u", k.fr, b, gu);
    auto* r = C.template cell<D>("rhs", k.fr, b, 0);
    u->fill(fu), r->fill(ff);
    C.text = cat("box ", show(b, D), " segment ", show(p, D), " dir=", dir, " side=", side, " ghost u=", gu, o.show());
    C.model = [=] {
        each<D>(t, [&](const int* c) {
            MV x = r->rd(c);
            x.ex = false;
            for (int e = 0; e < o.n; e++)
                if (o.t[e * D + dir] == 2 * side - 1) x = x - st->rd(c, e) * u->rd(o.at(c, e));
            r->wr(c, x);
        });
    };
    C.run = [=](int) mutable {
        auto tail = tp(o.n, (const int*)o.t.data(), (const double*)st->ptr(), gu, (const double*)u->ptr(), r->ptr());
        if constexpr (D == 1)
            LCALL(adjcellcrsfinebdryrhs, tc(split<D>(b), split<D>(p), tp(side), tail));
        else
            LCALL(adjcellcrsfinebdryrhs, tc(split<D>(b), split<D>(p), tp(dir, side), tail));
    };
    return C;
}
template <int D>
Call<double> gen_syspatch(KCtx& k)
{
    Call<double> C;
    Src& s = k.c.s;
    Box b = lbox(k, D);
    Offsets o = gen_offsets(s, D, false, false, 3);
    int extra = (int)s.weighted({3, 2, 1});
    int gu = gen_ghost(k, o.maxreach()), gf = gen_ghost(k);
    Fill fs = gen_fill(k.c), fu = gen_fill(k.c), ff = gen_fill(k.c);
    C.name = cat("system rhs ", D, "D");
    auto* st = comp<D>(C, "stencil", o.n + extra, b, 0);
    st->fill(fs);
    auto* u = C.template cell<D>("u", k.fr, b, gu);
    auto* f = C.template cell<D>("f", k.fr, b, gf);
    u->fill(fu), f->fill(ff);
    C.text = cat("box ", show(b, D), " ghost u,f=", gu, ",", gf, " stencil size ", o.n + extra, o.show());
    C.model = [=] {
        each<D>(b, [&](const int* c) {
            MV x = f->rd(c);
            for (int e = 0; e < o.n; e++) x = x + st->rd(c, e) * u->rd(o.at(c, e));
            f->wr(c, x);
        });
    };
    C.run = [=](int) mutable {
        LCALL12(celladjustsystemrhspatch, tc(split<D>(b), tp(o.n, (const int*)o.t.data(), o.n + extra, (const double*)st->ptr(), gu,
                                                           (const double*)u->ptr(), gf, f->ptr())));
    };
    return C;
}

// ------------------------------------------------------------------ node-centred routines (L05)
#define NODE_COEFFS(X, D)                                                                              \
    X(nodediffusionflux##D##d_) X(nodepoissonflux##D##d_) X(nodediffusionv1apply##D##d_)               \
    X(nodediffusionv2apply##D##d_) X(nodepoissonapply##D##d_) X(nodediffusionoffdiag##D##d_)           \
    X(nodepoissonoffdiag##D##d_) X(nodediffusionv1diag##D##d_) X(nodediffusionv2diag##D##d_)           \
    X(nodepoissondiag##D##d_) X(adjnodediffusiondiag##D##d_) X(adjnodepoissondiag##D##d_)              \
    X(adjnodediffusioncfdiag##D##d_) X(adjnodepoissoncfdiag##D##d_) X(adjnodediffusionoffdiag##D##d_)  \
    X(adjnodepoissonoffdiag##D##d_) X(adjnodediffusioncfoffdiag##D##d_)                                \
    X(readjnodediffusionoffdiag##D##d_) X(adjnodediffusioncfbdryrhs##D##d_)
#define DECL(F) void F();
extern "C" {
NODE_COEFFS(DECL, 1)
NODE_COEFFS(DECL, 2)
NODE_COEFFS(DECL, 3)
}
static void register_nodes()
{
    auto add = [](std::string n, Fsym f) {
        n.pop_back();
        auto p = n.find("node");
        n.replace(p, 4, "cell");
        node_syms()[n] = f;
    };
#define REG(F) add(#F, &F);
    NODE_COEFFS(REG, 1)
    NODE_COEFFS(REG, 2)
    NODE_COEFFS(REG, 3)
}
template <int D>
Call<double> gen_napply(KCtx& k)
{
    Call<double> C;
    Src& s = k.c.s;
    int kind = (int)s.range(0, 2);
    Box b = gen_box(k, D);
    int ga = gen_ghost(k), gu = gen_ghost(k), gf = gen_ghost(k), gr = gen_ghost(k);
    auto dx = gen_dx<double>(k);
    double alpha = gen_scalar<double>(k), beta = gen_scalar<double>(k), A = gen_scalar<double>(k), B = gen_scalar<double>(k);
    Fill fa = gen_fill(k.c), fu = gen_fill(k.c), ff = gen_fill(k.c);
    Fills fl = gen_fills(k);
    static const char* nm[] = {"v1apply", "v2apply", "poissonapply"};
    C.name = cat("node ", nm[kind]);
    Field<double>*a = nullptr, *u = nullptr;
    if (kind == 0) (a = C.template cell<D>("acoef", k.fr, b, ga))->fill(fa);
    if (kind < 2) (u = C.template cell<D>("u", k.fr, b, gu))->fill(fu);
    auto* f = C.template cell<D>("f", k.fr, b, gf);
    f->fill(ff);
    auto* r = C.template cell<D>("res", k.fr, b, gr);
    std::array<Field<double>*, 3> F{};
    for (int d = 0; d < D; d++) (F[d] = C.template face<D>("flux", k.fr, b, d, 0))->fill(fl.f[d]);
    C.text = cat(D, "D ", show(b, D), " ghosts a,u,f,r=", ga, ",", gu, ",", gf, ",", gr, " alpha=", alpha, " beta=", beta,
                 " a=", A, " b=", B, show_dx<D>(dx));
    C.model = [=] {
        each<D>(b, [&](const int* c) {
            MV div(0);
            for (int d = 0; d < D; d++) div = div + (F[d]->rd(Off(c, d, 1)) - F[d]->rd(c)) / MV(dx.v[d]);
            MV lu = -(MV(beta) * div);
            if (kind < 2) {
                MV re = MV(alpha) * u->rd(c);
                if (kind == 0) re = re * a->rd(c);
                lu = lu + re;
            }
            r->wr(c, MV(B) * f->rd(c) + MV(A) * lu);
        });
    };
    C.run = [=](int) mutable {
        auto P = pair<D>(b);
        auto tail = tc(tp(gf, f->ptr()), ptrs<D, double>(F.data()), tp(A, B, gr, r->ptr()));
        auto sym = [&](const char* n) { return node_syms().at(cat(n, D, "d")); };
        if (kind == 0) {
            auto t = tc(P, tp(alpha, beta, dx.v, ga, a->ptr(), gu, u->ptr()), tail);
            fcall(sym("celldiffusionv1apply"), t);
        } else if (kind == 1) {
            auto t = tc(P, tp(alpha, beta, dx.v, gu, u->ptr()), tail);
            fcall(sym("celldiffusionv2apply"), t);
        } else {
            auto t = tc(P, tp(beta, dx.v), tail);
            fcall(sym("cellpoissonapply"), t);
        }
    };
    return C;
}

template <class Fn>
void by_dim(Ctx& c, Fn&& fn)
{
    int D = 1 + c.s.weighted({2, 3, 4});
    c.label(cat(D, "D"));
    if (D == 1) fn(std::integral_constant<int, 1>());
    if (D == 2) fn(std::integral_constant<int, 2>());
    if (D == 3) fn(std::integral_constant<int, 3>());
}

PROP(L01)
{
    by_dim(c, [&](auto d) {
        KCtx k{c};
        auto C = gen_smooth<decltype(d)::value>(k);
        judge(c, C);
    });
}
PROP(L02)
{
    KCtx k{c};
    switch (c.s.draw(4)) {
    case 0: { auto C = gen_block1<1>(k); judge(c, C); break; }
    case 1: { auto C = gen_block1<2>(k); judge(c, C); break; }
    case 2: { auto C = gen_coupled(k); judge(c, C); break; }
    case 3: { auto C = gen_blocks(k); judge(c, C); break; }
    }
}
PROP(L03)
{
    by_dim(c, [&](auto d) {
        KCtx k{c};
        auto C = gen_applyst<decltype(d)::value>(k);
        judge(c, C);
    });
}
PROP(L04)
{
    by_dim(c, [&](auto d) {
        constexpr int D = decltype(d)::value;
        KCtx k{c};
        if constexpr (D < 3)
            if (c.s.flip()) {
                auto C = gen_syspatch<D>(k);
                judge(c, C);
                return;
            }
        auto C = gen_crsfine<D>(k);
        judge(c, C);
    });
}
PROP(L05)
{
    by_dim(c, [&](auto d) {
        constexpr int D = decltype(d)::value;
        KCtx k{c};
        k.node = true;
        k.big = c.s.chance(1, 8);
        auto go = [&](auto C) { judge(c, C, 2); };
        switch (c.s.weighted({2, 3, 3, 6, 6})) {
        case 0: go(gen_flux<D, double>(k)); break;
        case 1: go(gen_napply<D>(k)); break;
        case 2: go(gen_assemble<D, double>(k)); break;
        case 3: go(gen_phys<D, double>(k)); break;
        case 4: go(gen_cf<D, double>(k)); break;
        }
    });
}

int main(int argc, char** argv)
{
    register_nodes();
    return pbt::main_(argc, argv);
}
