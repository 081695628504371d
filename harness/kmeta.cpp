// K11..K15: relations between several executions of the kernels.
#include "kgen.hpp"

#include <atomic>
#include <functional>
#include <sys/socket.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

template <class F>
void dim_type(Ctx& c, F&& f, bool two = false)
{
    Src& s = c.s;
    int D = two ? 2 + (int)s.draw(2) : 1 + s.weighted({2, 3, 4});
    bool flt = s.chance(1, 3);
    c.label(cat(D, "D"));
    c.label(flt ? "float" : "double");
    auto go = [&](auto d) {
        if (flt)
            f(d, float());
        else
            f(d, double());
    };
    if (D == 1) go(std::integral_constant<int, 1>());
    if (D == 2) go(std::integral_constant<int, 2>());
    if (D == 3) go(std::integral_constant<int, 3>());
}

// any kernel call
template <int D, class T>
Call<T> any_call(KCtx& k, int what)
{
    switch (what) {
    case 0: return gen_flux<D, T>(k);
    case 1: return gen_apply<D, T>(k);
    case 2: return gen_bc_face<D, T>(k);
    case 3: return gen_assemble<D, T>(k);
    case 4: return gen_phys<D, T>(k);
    case 5: return gen_cf<D, T>(k);
    case 6:
        if constexpr (D > 1) return gen_bc_edge<D, T>(k);
        return gen_bc_face<D, T>(k);
    case 7: return k.c.s.flip() ? gen_icorner<T>(k) : gen_homog<T>(k);
    }
    return gen_c2f<T>(k);
}
template <class T>
long model_cells(Call<T>& C)
{
    C.model();
    long n = 0;
    for (auto& f : C.fields)
        for (auto x : f->fl) n += (x >> 1) & 1;
    return n;
}
template <class T>
void describe(Ctx& c, Call<T>& C)
{
    c.note(C.name, " ", std::is_same_v<T, float> ? "float " : "double ", C.text);
    c.label(C.name);
}

// ------------------------------------------------------------------ K11
PROP(K11)
{
    dim_type(c, [&](auto d, auto t) {
        constexpr int D = decltype(d)::value;
        using T = decltype(t);
        KCtx k{c};
        auto C = any_call<D, T>(k, (int)c.s.draw(9));
        describe(c, C);
        if (model_cells(C) >= 8) c.nontrivial = true;
        int n = 3 + (int)c.s.draw(3);
        std::vector<int> th;
        for (int i = 0; i < n; i++) th.push_back((int)c.s.pick({4, 2, 3, 8, 1, 5, 7, 16, 13}));
        std::vector<std::vector<T>> ref;
        use_threads(1);
        for (auto& f : C.fields) f->reset();
        C.run(0);
        for (auto& f : C.fields) ref.emplace_back(f->ptr(), f->ptr() + f->n);
        for (int t : th) {
            use_threads(t);
            c.label(cat(t, " threads"));
            for (auto& f : C.fields) f->reset();
            C.run(0);
            for (size_t q = 0; q < C.fields.size(); q++) {
                auto& f = C.fields[q];
                if (std::memcmp(ref[q].data(), f->ptr(), sizeof(T) * f->n) == 0) continue;
                for (long i = 0; i < f->n; i++)
                    if (std::memcmp(&ref[q][i], f->ptr() + i, sizeof(T)) != 0)
                        fail(f->where(i), " is ", ref[q][i], " with one thread and ", f->ptr()[i], " with ",
                             t, " threads");
            }
        }
    });
}

// ------------------------------------------------------------------ K17
// several calls with their own arrays: alone, one after another in any order, and at the same time
struct Job {
    std::string name;
    long cells = 0, data = 0; // written by the rule, held in all arrays
    std::function<void()> reset, run, keep;
    std::function<uint64_t()> bits;
    std::function<std::string()> differs; // from what was kept; empty if nothing
};
template <int D, class T>
Job job_of(Ctx& c, int what, int impl)
{
    KCtx k{c};
    k.big = c.s.chance(1, 12);
    auto C = std::make_shared<Call<T>>(any_call<D, T>(k, what));
    if (std::is_same_v<T, float> || !C->fortran) impl = 0;
    Job j;
    j.name = cat(C->name, impl ? " Fortran " : " ", std::is_same_v<T, float> ? "float " : "double ", C->text);
    c.label(C->name);
    j.cells = model_cells(*C);
    for (auto& f : C->fields) j.data += f->n;
    auto ref = std::make_shared<std::vector<std::vector<T>>>();
    j.reset = [C] {
        for (auto& f : C->fields) f->reset();
    };
    j.run = [C, impl] { C->run(impl); };
    j.keep = [C, ref] {
        ref->clear();
        for (auto& f : C->fields) ref->emplace_back(f->ptr(), f->ptr() + f->n);
    };
    j.bits = [C] {
        uint64_t h = 1;
        for (auto& f : C->fields)
            for (long i = 0; i < f->n; i++) {
                uint64_t x = 0;
                std::memcpy(&x, f->ptr() + i, sizeof(T));
                h = mix(h, x);
            }
        return h;
    };
    j.differs = [C, ref]() -> std::string {
        for (size_t q = 0; q < C->fields.size(); q++) {
            auto& f = C->fields[q];
            auto& r = (*ref)[q];
            if (std::memcmp(r.data(), f->ptr(), sizeof(T) * f->n) == 0) continue;
            for (long i = 0; i < f->n; i++)
                if (std::memcmp(&r[i], f->ptr() + i, sizeof(T)) != 0)
                    return cat(f->where(i), " is ", f->ptr()[i], " instead of ", r[i]);
        }
        return "";
    };
    return j;
}
std::vector<Job> gen_jobs(Ctx& c)
{
    Src& s = c.s;
    int m = 2 + (int)s.weighted({4, 3, 1});
    bool same = s.chance(2, 3); // calls of one routine
    int D = 0, what = 0, flt = 0, impl = 0;
    std::vector<Job> jobs;
    std::vector<uint64_t> first;
    for (int q = 0; q < m; q++) {
        if (q == 0 || !same) {
            D = 1 + s.weighted({2, 3, 4});
            what = (int)s.draw(9);
            flt = s.chance(1, 3);
            impl = s.chance(1, 8);
        }
        // often the first call again with some of its choices redrawn
        Src v = Src::random(s.draw(1 << 20));
        const int keep = q && same ? s.weighted({4, 2, 1, 2}) : 3;
        if (keep < 3) {
            v.pre = first;
            for (size_t x = 0; x < first.size(); x++) v.redraw.push_back(mix(v.state + x) % (keep == 0 ? 6 : keep == 1 ? 3 : 15) == 0);
            c.label("call repeated with other arguments");
        }
        Ctx cv(v);
        Ctx& use = keep < 3 ? cv : c;
        auto go = [&](auto d) {
            constexpr int N = decltype(d)::value;
            return flt ? job_of<N, float>(use, what, impl) : job_of<N, double>(use, what, impl);
        };
        const size_t at = s.rec.size();
        jobs.push_back(D == 1 ? go(std::integral_constant<int, 1>())
                              : D == 2 ? go(std::integral_constant<int, 2>()) : go(std::integral_constant<int, 3>()));
        if (q == 0) first.assign(s.rec.begin() + at, s.rec.end());
        c.note(q ? " || " : "", jobs.back().name);
    }
    c.label(same ? "calls of one kernel" : "calls of different kernels");
    return jobs;
}
// A copy of this process from before its first kernel call; it forks once per question and makes
// one call of a case there, which is then the first call ever.
struct Pristine {
    int fd = -1;
    pid_t p = -1;
    ~Pristine()
    {
        if (fd < 0) return;
        close(fd);
        waitpid(p, nullptr, 0);
    }
    explicit Pristine(bool on)
    {
        int sv[2];
        if (!on || socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) return;
        p = fork();
        if (p < 0) return;
        if (p > 0) {
            close(sv[1]);
            fd = sv[0];
            return;
        }
        close(sv[0]);
        serve(sv[1]);
        _exit(0);
    }
    static bool all(int fd, void* p, size_t n, bool in)
    {
        for (char* q = (char*)p; n > 0;) {
            ssize_t k = in ? ::read(fd, q, n) : ::send(fd, q, n, MSG_NOSIGNAL);
            if (k <= 0) return false;
            q += k, n -= k;
        }
        return true;
    }
    static void serve(int fd)
    {
        uint64_t head[2];
        while (all(fd, head, sizeof head, true)) {
            std::vector<uint64_t> ch(head[1]);
            if (!all(fd, ch.data(), 8 * ch.size(), true)) return;
            int pp[2];
            if (pipe(pp) != 0) return;
            pid_t p = fork();
            if (p == 0) {
                close(pp[0]);
                Src s = Src::replay(ch);
                Ctx c(s);
                uint64_t r[2] = {1, 0};
                try {
                    auto jobs = gen_jobs(c);
                    use_threads(1);
                    jobs[head[0]].reset();
                    jobs[head[0]].run();
                    r[1] = jobs[head[0]].bits();
                } catch (...) {
                    r[0] = 0;
                }
                if (::write(pp[1], r, sizeof r) != sizeof r) _exit(1);
                _exit(0);
            }
            close(pp[1]);
            uint64_t r[2] = {0, 0};
            if (p < 0 || !all(pp[0], r, sizeof r, true)) r[0] = 0;
            close(pp[0]);
            if (p > 0) waitpid(p, nullptr, 0);
            if (!all(fd, r, sizeof r, false)) return;
        }
    }
    // bits of call q of the case as the first call of a process; false if there is no answer
    bool ask(uint64_t q, std::vector<uint64_t> choices, uint64_t& bits)
    {
        uint64_t head[2] = {q, choices.size()}, r[2];
        if (fd < 0 || !all(fd, head, sizeof head, false) || !all(fd, choices.data(), 8 * choices.size(), false) ||
            !all(fd, r, sizeof r, true) || !r[0])
            return false;
        bits = r[1];
        return true;
    }
};
PROP(K17)
{
#ifdef __SANITIZE_THREAD__
    constexpr bool tsan = true;
#else
    constexpr bool tsan = false;
#endif
    static Pristine pristine(!tsan);
    Src& s = c.s;
    auto jobs = gen_jobs(c);
    const int m = (int)jobs.size();
    const auto gen = s.rec;
    int busy = 0;
    for (auto& j : jobs) busy += j.cells >= 2;
    if (busy >= 2) c.nontrivial = true;
    use_threads(1);
    for (auto& j : jobs) j.reset(), j.run(), j.keep();
    if (!tsan && s.chance(1, 3)) {
        const auto q = s.draw(m);
        uint64_t bits = 0;
        if (pristine.ask(q, gen, bits)) {
            c.label("compared with a first call");
            if (bits != jobs[q].bits()) fail("the result depends on earlier calls of the process, not only on the arguments: ", jobs[q].name);
        }
    }
    // in another order, some several times
    int n = 2 + (int)s.draw(5);
    for (int q = 0; q < n; q++) {
        auto& j = jobs[s.draw(m)];
        j.reset();
        j.run();
        for (auto& o : jobs) {
            auto d = o.differs();
            if (d.empty()) continue;
            if (&o == &j) fail("after other calls, ", j.name, ": ", d);
            fail("call ", j.name, " changes an array of another call, ", o.name, ": ", d);
        }
    }
    // at the same time
    long data = 1;
    for (auto& j : jobs) data = std::max(data, j.data);
    int rounds = (int)std::clamp(s.range(20000, 120000) / data, 8l, 400l), omp = 1 + (int)s.weighted({24, 1});
    if (omp > 1) rounds = std::min(rounds, 8);
#ifdef __SANITIZE_THREAD__
    rounds = std::min(rounds, 6), omp = 1;
#else
    if (std::getenv("PBT_REPLAY")) rounds *= 20;
#endif
    const bool step = s.chance(1, 8); // all start every round together, or run freely
    c.label(cat(m, " callers at once, ", omp, omp > 1 ? " threads each" : " thread each"));
    std::atomic<int> ready{0};
    std::atomic<bool> stop{false};
    std::vector<std::string> bad(m);
    std::vector<std::thread> team;
    for (int q = 0; q < m; q++)
        team.emplace_back([&, q] {
            use_threads(omp);
            for (int r = 0; r < rounds && !stop; r++) {
                jobs[q].reset();
                if (r == 0 || step) {
                    ready++;
                    for (int spin = 0; ready < m * (r + 1) && !stop; spin++)
                        if (spin > 200) std::this_thread::yield();
                }
                jobs[q].run();
                if (!(bad[q] = jobs[q].differs()).empty()) stop = true;
            }
        });
    for (auto& t : team) t.join();
    for (int q = 0; q < m; q++)
        if (!bad[q].empty()) fail("while other threads make other calls, ", jobs[q].name, ": ", bad[q]);
}

// ------------------------------------------------------------------ K18
// One cell gets another content, often infinity or not a number: results whose formula does not name
// that cell keep their bits. The cells named are those through which not-a-number travels in the model.
PROP(K18)
{
    dim_type(c, [&](auto d, auto t) {
        constexpr int D = decltype(d)::value;
        using T = decltype(t);
        Src& s = c.s;
        KCtx k{c};
        k.big = s.chance(1, 8);
        auto C = any_call<D, T>(k, (int)s.draw(9));
        describe(c, C);
        C.model();
        std::vector<std::pair<size_t, long>> read, idle;
        long written = 0, all = 0;
        for (size_t q = 0; q < C.fields.size(); q++)
            for (long i = 0; i < C.fields[q]->n; i++) {
                const int fl = C.fields[q]->fl[i];
                all++;
                if (fl & 2) written++;
                if (fl & 1)
                    read.push_back({q, i});
                else if (!(fl & 2))
                    idle.push_back({q, i});
            }
        if (written == 0) c.label("rule writes nothing");
        const int impls = std::is_same_v<T, double> && C.fortran ? 2 : 1;
        const int th = s.chance(1, 6) ? 3 : 1;
        const int rounds = all > 20000 ? 1 : 1 + (int)s.draw(4);
        std::vector<std::vector<T>> ref[2];
        use_threads(th);
        for (int impl = 0; impl < impls; impl++) {
            for (auto& f : C.fields) f->reset();
            C.run(impl);
            for (auto& f : C.fields) ref[impl].emplace_back(f->ptr(), f->ptr() + f->n);
        }
        for (int r = 0; r < rounds; r++) {
            const bool from_read = !read.empty() && (idle.empty() || s.flip());
            auto& from = from_read ? read : idle;
            if (from.empty()) return;
            const auto [fq, fi] = from[s.draw(from.size())];
            auto& F = *C.fields[fq];
            const T old = F.init[fi];
            T v = std::numeric_limits<T>::quiet_NaN();
            const char* what = "not a number";
            switch (s.weighted({3, 2, 1, 2})) {
            case 1: v = std::numeric_limits<T>::infinity(), what = "infinity"; break;
            case 2: v = -std::numeric_limits<T>::infinity(), what = "minus infinity"; break;
            case 3: v = (T)(old + 1 + (double)s.draw(1000)), what = "another number"; break;
            }
            c.label(cat(what, from_read ? " in a cell the formulas name" : " in a cell no formula names"));
            F.init[fi] = std::numeric_limits<T>::quiet_NaN();
            for (auto& f : C.fields) {
                std::fill(f->fl.begin(), f->fl.end(), 0);
                f->out.clear();
            }
            C.model();
            F.init[fi] = v;
            long kept = 0, hit = 0;
            for (int impl = 0; impl < impls; impl++) {
                for (auto& f : C.fields) f->reset();
                C.run(impl);
                for (size_t q = 0; q < C.fields.size(); q++) {
                    auto& f = *C.fields[q];
                    for (long i = 0; i < f.n; i++) {
                        const bool w = f.fl[i] & 2;
                        if (w && std::isnan(f.out[i].v)) {
                            hit++;
                            continue;
                        }
                        if (q == fq && i == fi) continue;
                        kept += w;
                        if (std::memcmp(&ref[impl][q][i], f.ptr() + i, sizeof(T)) == 0) continue;
                        fail(impl ? "Fortran: " : "", f.where(i), " goes from ", ref[impl][q][i], " to ", f.ptr()[i],
                             " when ", F.where(fi), ", which its formula does not name, is changed from ", old, " to ", v);
                    }
                }
            }
            if (kept >= 2) c.nontrivial = true;
            if (hit) c.label("some results depend on the cell");
            F.init[fi] = old;
        }
    });
}

// ------------------------------------------------------------------ shared-data operator
template <int D, class T>
struct Op {
    Call<T> C; // owner of the fields
    Box b;
    Scal<T> dx;
    T alpha, beta;
    int kind, ga, gu, gf, gr, gs;
    Field<T>*a = nullptr, *u, *f, *r, *st;
    std::array<Field<T>*, 3> B{}, F{};

    explicit Op(KCtx& k, bool positive = false)
    {
        kind = (int)k.c.s.range(0, 2);
        b = gen_box(k, D);
        ga = 0;
        gu = gen_ghost(k, 1), gf = gen_ghost(k), gr = gen_ghost(k), gs = gen_ghost(k);
        dx = gen_dx<T>(k);
        alpha = gen_scalar<T>(k), beta = gen_scalar<T>(k);
        a = C.template cell<D>("a", k.fr, b, ga);
        u = C.template cell<D>("u", k.fr, b, gu);
        f = C.template cell<D>("f", k.fr, b, gf);
        r = C.template cell<D>("r", k.fr, b, gr);
        st = C.template stencil<D>("st", k.fr, b, gs);
        a->fill(gen_fill(k.c));
        u->fill(gen_fill(k.c));
        f->fill(gen_fill(k.c));
        Fills fb = gen_fills(k, positive);
        for (int d = 0; d < D; d++) {
            B[d] = C.template face<D>("b", k.fr, b, d, 0);
            B[d]->fill(fb.f[d]);
            F[d] = C.template face<D>("F", k.fr, b, d, 0);
        }
        for (auto& x : C.fields) x->reset();
        C.text = cat(D, "D ", show(b, D), " form=", kind, " ghosts u,f,r,st=", gu, ",", gf, ",", gr, ",", gs, " alpha=", alpha, " beta=", beta,
                     show_dx<D>(dx));
    }
    void flux(int impl)
    {
        T* d = dx.v;
        if (kind == 2)
            KCALL(F, poisson_flux, cellpoissonflux, tc(split<D>(b), tp(d, gu, u->ptr()), ptrs<D, T>(F.data())));
        else
            KCALL(F, flux, celldiffusionflux,
                  tc(split<D>(b), tp(d), ptrs<D, T>(B.data()), tp(gu, u->ptr()), ptrs<D, T>(F.data())));
    }
    void apply(int impl)
    {
        T* d = dx.v;
        auto P = ::pair<D>(b);
        auto fp = ptrs<D, T>(F.data());
        if (kind == 0)
            KCALL(A, diffusion_v1_apply, celldiffusionv1apply,
                  tc(P, tp(alpha, beta, d, ga, a->ptr(), gu, u->ptr()), fp, tp(gr, r->ptr())));
        else if (kind == 1)
            KCALL(A, diffusion_v2_apply, celldiffusionv2apply, tc(P, tp(alpha, beta, d, gu, u->ptr()), fp, tp(gr, r->ptr())));
        else
            KCALL(A, poisson_v2_apply, cellpoissonv2apply, tc(P, tp(beta, d), fp, tp(gr, r->ptr())));
    }
    void res(int impl)
    {
        T* d = dx.v;
        auto P = ::pair<D>(b);
        auto fp = ptrs<D, T>(F.data());
        if (kind == 0)
            KCALL(A, diffusion_v1_res, celldiffusionv1res,
                  tc(P, tp(alpha, beta, d, ga, a->ptr(), gu, u->ptr(), gf, f->ptr()), fp, tp(gr, r->ptr())));
        else if (kind == 1)
            KCALL(A, diffusion_v2_res, celldiffusionv2res,
                  tc(P, tp(alpha, beta, d, gu, u->ptr(), gf, f->ptr()), fp, tp(gr, r->ptr())));
        else
            KCALL(A, poisson_v1_res, cellpoissonv1res, tc(P, tp(beta, d, gf, f->ptr()), fp, tp(gr, r->ptr())));
    }
    void assemble(int impl, const std::function<void()>& between = [] {})
    {
        auto P = split<D>(b);
        T* d = dx.v;
        T* s = st->ptr();
        if (kind == 2) {
            KCALL(S, poisson_offdiag, cellpoissonoffdiag, tc(P, tp(d, beta, gs, s)));
            between();
            KCALL(S, poisson_diag, cellpoissondiag, tc(P, tp(gs, s)));
            return;
        }
        KCALL(S, offdiag, celldiffusionoffdiag, tc(P, P, tp(d, beta), ptrs<D, T>(B.data()), tp(gs, s)));
        between();
        if (kind == 0)
            KCALL(S, v1diag, celldiffusionv1diag, tc(P, P, tp(alpha, a->ptr(), gs, s)));
        else
            KCALL(S, v2diag, celldiffusionv2diag, tc(P, tp(alpha, gs, s)));
    }
    // magnitude of the terms that make up one row of the operator
    long double row_mag(const int* c)
    {
        long double m = 0;
        auto ab = [](T x) { return std::fabs((long double)x); };
        long double uc = ab(u->get(c));
        for (int d = 0; d < D; d++)
            for (int s = 0; s < 2; s++) {
                long double co = std::fabs((long double)beta) / ((long double)dx.v[d] * dx.v[d]);
                if (kind < 2) co *= ab(B[d]->get(Off(c, d, s)));
                m += co * (uc + ab(u->get(Off(c, d, 2 * s - 1))));
            }
        if (kind < 2) m += ab(alpha) * uc * (kind == 0 ? ab(a->get(c)) : 1);
        return m;
    }
    long double row(const int* c, Field<T>* st)
    {
        long double v = (long double)st->get(c, 0) * u->get(c);
        for (int d = 0; d < D; d++) {
            v += (long double)st->get(c, 1 + 2 * d) * u->get(Off(c, d, -1));
            v += (long double)st->get(c, 2 + 2 * d) * u->get(Off(c, d, 1));
        }
        return v;
    }
};
template <class T>
int gen_impl(Ctx& c)
{
    return std::is_same_v<T, double> ? c.s.weighted({3, 1}) : 0;
}
template <class T>
void close(Ctx&, long double x, long double y, long double m, const std::string& what, double k = 256)
{
    if (!(m < (long double)std::numeric_limits<T>::max() / 1024)) return;
    if (std::fabs(x - y) <= k * std::numeric_limits<T>::epsilon() * m + floor_of<T>()) return;
    if (!(std::isfinite(x) && std::isfinite(y)) || true)
        fail(what, ": ", (double)x, " against ", (double)y, " (scale ", (double)m, ")");
}

// ------------------------------------------------------------------ K12
PROP(K12)
{
    dim_type(c, [&](auto dd, auto t) {
        constexpr int D = decltype(dd)::value;
        using T = decltype(t);
        Src& s = c.s;
        KCtx k{c};
        Op<D, T> O(k);
        int i0 = gen_impl<T>(c), i1 = gen_impl<T>(c), i2 = gen_impl<T>(c);
        int dir = (int)s.range(0, D - 1), side = (int)s.draw(2);
        Seg sg[3];
        for (int d = 0; d < 3; d++) sg[d] = gen_seg(k, O.b, d, true);
        int wide = s.chance(1, 5) ? 1 : 0;
        Fill frhs = gen_fill(c);
        int th = gen_threads(c);
        c.note(std::is_same_v<T, float> ? "float " : "double ", O.C.text, " interface dir=", dir, " side=", side, " threads=", th,
               " impls=", i0, i1, i2);
        c.label(cat("form ", O.kind));
        if (O.b.cells(D) >= 2) c.nontrivial = true;
        O.flux(i0);
        O.apply(i0);
        O.assemble(i1);
        each<D>(O.b, [&](const int* x) {
            close<T>(c, O.row(x, O.st), O.r->get(x), O.row_mag(x),
                     cat("assembled row against matrix-free operator at ", O.r->where(O.r->idx(x))));
        });
        // eliminate the ghosts across one interface segment
        Box p, q;
        for (int d = 0; d < D; d++) p.lo[d] = q.lo[d] = sg[d].lo, p.hi[d] = q.hi[d] = sg[d].hi;
        q.lo[dir] = q.hi[dir] = side ? O.b.hi[dir] : O.b.lo[dir];
        p.lo[dir] = p.hi[dir] = q.lo[dir] + 2 * side - 1;
        p.hi[dir] += wide;
        Call<T> R;
        auto* rhs = R.template cell<D>("rhs", k.fr, O.b, 0);
        rhs->fill(frhs);
        rhs->reset();
        std::vector<long double> before, mag;
        each<D>(O.b, [&](const int* x) {
            before.push_back((long double)rhs->get(x) - O.row(x, O.st));
            mag.push_back(O.row_mag(x) + std::fabs((long double)rhs->get(x)));
        });
        auto ds = [&] {
            if constexpr (D == 1)
                return tp(side);
            else
                return tp(dir, side);
        };
        auto P = split<D>(O.b), Q = split<D>(p);
        {
            int impl = i2;
            KCALL(S, adj_cf_bdryrhs, adjcelldiffusioncfbdryrhs,
                  tc(P, Q, ds(), tp(O.gs, O.st->ptr(), O.gu, O.u->ptr(), rhs->ptr())));
            KCALL(S, readj_offdiag, readjcelldiffusionoffdiag, tc(P, Q, ds(), tp(O.gs, O.st->ptr())));
        }
        long n = 0;
        int U = 2 * dir + 1 + side;
        each<D>(O.b, [&](const int* x) {
            close<T>(c, (long double)rhs->get(x) - O.row(x, O.st), before[n], mag[n],
                     cat("equation after ghost elimination at ", rhs->where(rhs->idx(x))));
            n++;
        });
        each<D>(q, [&](const int* x) {
            if (O.st->get(x, U) != 0)
                fail("coefficient across the interface is still ", O.st->get(x, U), " at ", O.st->where(O.st->idx(x, U)));
        });
    });
}

// ------------------------------------------------------------------ K13
// run the call on given contents of its fields; returns all arrays afterwards and the model's magnitudes
template <class T>
struct Out {
    std::vector<std::vector<T>> v;
    std::vector<std::vector<long double>> m;
};
template <class T>
Out<T> run_on(Call<T>& C, const std::vector<std::vector<T>>& in, int impl)
{
    Out<T> o;
    for (size_t q = 0; q < C.fields.size(); q++) {
        auto& f = C.fields[q];
        f->init = in[q];
        std::fill(f->fl.begin(), f->fl.end(), 0);
        f->reset();
    }
    C.model();
    C.run(impl);
    for (auto& f : C.fields) {
        o.v.emplace_back(f->ptr(), f->ptr() + f->n);
        std::vector<long double> m(f->n);
        for (long i = 0; i < f->n; i++)
            m[i] = f->fl[i] & 2 ? f->out[i].m : std::fabs((long double)f->init[i]);
        o.m.push_back(m);
    }
    return o;
}
template <class T>
std::vector<std::vector<T>> snapshot(Call<T>& C)
{
    std::vector<std::vector<T>> r;
    for (auto& f : C.fields) r.push_back(f->init);
    return r;
}
inline bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }

template <int D, class T>
void k13_sum(Ctx& c)
{
    KCtx k{c};
    Op<D, T> O(k);
    int i0 = gen_impl<T>(c), i1 = gen_impl<T>(c);
    bool onflux = c.s.flip();
    Fills ff = gen_fills(k);
    gen_threads(c);
    c.note("residual+apply ", O.C.text);
    c.label("residual + apply = source");
    c.nontrivial = O.b.cells(D) >= 2;
    if (onflux)
        O.flux(i0);
    else
        for (int d = 0; d < D; d++) O.F[d]->fill(ff.f[d]), O.F[d]->reset();
    auto mag = [&](const int* x) {
        long double m = 0;
        auto ab = [](T x) { return std::fabs((long double)x); };
        for (int d = 0; d < D; d++)
            m += (ab(O.F[d]->get(x)) + ab(O.F[d]->get(Off(x, d, 1)))) * ab(O.beta) / ab(O.dx.v[d]);
        if (O.kind < 2) m += ab(O.alpha) * ab(O.u->get(x)) * (O.kind == 0 ? ab(O.a->get(x)) : 1);
        return m + ab(O.f->get(x));
    };
    O.apply(i0);
    std::vector<T> A(O.r->ptr(), O.r->ptr() + O.r->n);
    O.r->reset();
    O.res(i1);
    long double tot = 0, totm = 0;
    each<D>(O.b, [&](const int* x) {
        long i = O.r->idx(x);
        close<T>(c, (long double)A[i] + O.r->get(x), O.f->get(x), mag(x), cat("residual plus operator against source at ", O.r->where(i)));
        tot += A[i];
        totm += mag(x);
    });
    // divergence telescopes to the outer faces
    long double want = 0;
    for (int d = 0; d < D; d++) {
        Box e = O.b;
        for (int s = 0; s < 2; s++) {
            e.lo[d] = e.hi[d] = s ? O.b.hi[d] + 1 : O.b.lo[d];
            each<D>(e, [&](const int* x) { want += (s ? -1 : 1) * (long double)O.beta * O.F[d]->get(x) / O.dx.v[d]; });
        }
    }
    if (O.kind < 2)
        each<D>(O.b, [&](const int* x) {
            want += (long double)O.alpha * O.u->get(x) * (O.kind == 0 ? (long double)O.a->get(x) : 1);
        });
    close<T>(c, tot, want, totm, "sum of the operator over the box against boundary fluxes and reaction");
}

template <int D, class T>
void k13_const(Ctx& c)
{
    KCtx k{c};
    auto C = gen_flux<D, T>(k);
    T v = gen_scalar<T>(k);
    int impl = gen_impl<T>(c);
    gen_threads(c);
    describe(c, C);
    c.label("constant solution");
    c.nontrivial = true;
    for (auto& f : C.fields) {
        if (f->name == "u") std::fill(f->init.begin(), f->init.end(), v);
        f->reset();
    }
    C.run(impl);
    C.model();
    for (auto& f : C.fields)
        for (long i = 0; i < f->n; i++)
            if (f->fl[i] & 2) close<T>(c, f->ptr()[i], 0, f->out[i].m, cat("flux of the constant ", v, " at ", f->where(i)));
}

template <int D, class T>
void k13_linear(Ctx& c, int what)
{
    KCtx k{c};
    k.big = c.s.chance(1, 4);
    auto C = what == 0 ? gen_flux<D, T>(k) : what == 1 ? gen_apply<D, T>(k) : what == 2 ? gen_bc_face<D, T>(k) : D > 1 ? gen_bc_edge<(D > 1 ? D : 2), T>(k) : gen_homog<T>(k);
    int mode = c.s.weighted({4, 2}); // 0 in the solution, 1 in the coefficients
    T lam = (T)c.s.pick({2.0, -1.0, 3.0, 0.5, -4.0});
    Fill fx{1, c.s.draw(1000)}, fy{1, c.s.draw(1000)};
    int impl = C.fortran ? gen_impl<T>(c) : 0;
    gen_threads(c);
    describe(c, C);
    bool coeff = mode == 1 && what == 0 && C.name == "flux";
    c.label(coeff ? "linear in the coefficients" : "linear in the solution");
    auto lin = [&](const std::string& n) {
        if (coeff) return starts(n, "b");
        if (what == 0) return n == "u";
        if (what == 1) return n == "u" || n == "f" || starts(n, "flux");
        return n == "u";
    };
    auto base = snapshot(C);
    auto X = base, Y = base, W = base;
    for (size_t q = 0; q < C.fields.size(); q++) {
        auto& f = C.fields[q];
        if (!lin(f->name)) continue;
        f->fill(fx);
        X[q] = f->init;
        f->fill(fy);
        Y[q] = f->init;
        for (long i = 0; i < f->n; i++) W[q][i] = X[q][i] + lam * Y[q][i];
    }
    auto ox = run_on(C, X, impl), oy = run_on(C, Y, impl), ow = run_on(C, W, impl);
    long n = 0;
    for (size_t q = 0; q < C.fields.size(); q++) {
        auto& f = C.fields[q];
        for (long i = 0; i < f->n; i++)
            if (f->fl[i] & 2) {
                n++;
                close<T>(c, ow.v[q][i], (long double)ox.v[q][i] + (long double)lam * oy.v[q][i],
                         ow.m[q][i] + ox.m[q][i] + std::fabs((long double)lam) * oy.m[q][i],
                         cat("result for x + ", lam, " y against the combination of the results at ", f->where(i)));
            }
    }
    if (n >= 2) c.nontrivial = true;
}

// operator(alpha, beta) = operator(alpha, 0) + operator(0, beta), and both scale
template <int D, class T>
void k13_scalars(Ctx& c)
{
    KCtx k{c};
    k.big = c.s.chance(1, 4);
    size_t from = c.s.rec.size();
    auto C = gen_apply<D, T>(k);
    std::vector<uint64_t> ch(c.s.rec.begin() + from, c.s.rec.end());
    double fa = c.s.pick({0.0, 2.0, -1.0, 3.0}), fb = c.s.pick({2.0, 0.0, -1.0, 3.0});
    int impl = gen_impl<T>(c);
    gen_threads(c);
    describe(c, C);
    c.label("scaling with alpha and beta");
    if (C.cells >= 2) c.nontrivial = true;
    auto again = [&](double a, double b) {
        Src s2 = Src::replay(ch);
        Ctx c2(s2);
        KCtx k2{c2};
        k2.big = k.big;
        k2.amul = a, k2.bmul = b;
        auto C2 = gen_apply<D, T>(k2);
        return run_on(C2, snapshot(C2), impl);
    };
    // (fa, fb) = fa*(1,0) + fb*(0,1) + (1-fa-fb)*(0,0)
    auto w = again(fa, fb), pa = again(1, 0), pb = again(0, 1), z = again(0, 0);
    for (auto& f : C.fields) std::fill(f->fl.begin(), f->fl.end(), 0);
    C.model();
    for (size_t q = 0; q < C.fields.size(); q++) {
        auto& f = C.fields[q];
        for (long i = 0; i < f->n; i++)
            if (f->fl[i] & 2) {
                long double cz = 1 - (long double)fa - fb;
                close<T>(c, w.v[q][i], fa * (long double)pa.v[q][i] + fb * (long double)pb.v[q][i] + cz * z.v[q][i],
                         w.m[q][i] + std::fabs(fa) * pa.m[q][i] + std::fabs(fb) * pb.m[q][i] + std::fabs(cz) * z.m[q][i],
                         cat("result for ", fa, " alpha, ", fb, " beta against the scaled parts at ", f->where(i)));
            }
    }
}
PROP(K13)
{
    int what = c.s.weighted({3, 1, 2, 2, 2, 1, 2});
    dim_type(c, [&](auto dd, auto t) {
        constexpr int D = decltype(dd)::value;
        using T = decltype(t);
        switch (what) {
        case 0: k13_sum<D, T>(c); break;
        case 1: k13_const<D, T>(c); break;
        case 6: k13_scalars<D, T>(c); break;
        default: k13_linear<D, T>(c, what - 2);
        }
    });
}

// ------------------------------------------------------------------ K14
template <class T>
Call<T> rerun(Ctx& c, size_t from, const KCtx& k0, const Frame& fr, const std::function<Call<T>(KCtx&)>& gen)
{
    Src s2 = Src::replay(std::vector<uint64_t>(c.s.rec.begin() + from, c.s.rec.end()));
    Ctx c2(s2);
    KCtx k{c2};
    k.fr = fr;
    k.big = k0.big;
    k.symmetric = k0.symmetric;
    return gen(k);
}
PROP(K14)
{
    dim_type(c, [&](auto dd, auto t) {
        constexpr int D = decltype(dd)::value;
        using T = decltype(t);
        Src& s = c.s;
        Frame fr;
        int what = (int)s.draw(9);
        int m = s.weighted({2, 3, 2, 1});
        int R = m == 0 ? 1 : m == 1 ? 12 : m == 2 ? 1000 : 60000;
        for (int d = 0; d < 3; d++) fr.shift[d] = (int)s.around(-R, R, 0);
        for (int d = D; d < 3; d++)
            if (what < 7 || (what == 7 && d == 2)) fr.shift[d] = 0;
        if (what == 7) fr.shift[2] = 0;
        fr.extra_ghost = (what < 7 || what == 8) && s.chance(1, 3) ? (int)s.range(1, 2) : 0;
        if (what == 8) fr.extra_ghost = 0;
        KCtx k{c};
        size_t from = s.rec.size();
        std::function<Call<T>(KCtx&)> gen = [&](KCtx& kk) { return any_call<D, T>(kk, what); };
        auto C0 = gen(k);
        auto C1 = rerun<T>(c, from, k, fr, gen);
        int impl = C0.fortran && C1.fortran ? gen_impl<T>(c) : 0;
        gen_threads(c);
        describe(c, C0);
        c.note(" shift=(", fr.shift[0], ",", fr.shift[1], ",", fr.shift[2], ") extra ghost=", fr.extra_ghost, " impl=", impl);
        if (fr.extra_ghost) c.label("extra ghost");
        if (impl) c.label("Fortran");
        bool moved = fr.shift[0] || fr.shift[1] || fr.shift[2] || fr.extra_ghost;
        if (model_cells(C0) >= 2 && moved) c.nontrivial = true;
        for (auto* C : {&C0, &C1}) {
            for (auto& f : C->fields) f->reset();
            C->run(impl);
        }
        for (size_t q = 0; q < C0.fields.size(); q++) {
            auto &f = C0.fields[q], &g = C1.fields[q];
            for (long i = 0; i < f->n; i++) {
                int x[3], w;
                f->coord(i, x, w);
                for (int d = 0; d < 3; d++) x[d] += g->fr.shift[d];
                T p = f->ptr()[i], r = g->get(x, w);
                if (std::memcmp(&p, &r, sizeof(T)) != 0)
                    fail(f->where(i), " is ", p, " but ", r, " after moving the index box");
            }
            if (g->n != f->n) // added ghost cells must not have been touched
                for (long i = 0; i < g->n; i++) {
                    int x[3], w;
                    g->coord(i, x, w);
                    for (int d = 0; d < 3; d++) x[d] -= g->fr.shift[d];
                    if (!f->inside(x, w) && std::memcmp(g->ptr() + i, &g->init[i], sizeof(T)) != 0)
                        fail(g->where(i), " in an added ghost layer was written");
                }
        }
    });
}

// ------------------------------------------------------------------ K15
template <class T>
Field<T>* twin(Call<T>& C, const Field<T>* f, const Frame& fr)
{
    std::string n = f->name;
    if (f->facedir >= 0) n = n.substr(0, n.size() - 1) + std::to_string(fr.perm[f->facedir]);
    for (auto& g : C.fields)
        if (g->name == n) return g.get();
    throw Discard{};
}
template <int D, class T>
Call<T> sym_call(KCtx& k, int what)
{
    switch (what) {
    case 0: return gen_flux<D, T>(k);
    case 1: return gen_apply<D, T>(k);
    case 2: return gen_bc_face<D, T>(k);
    case 3: return gen_assemble<D, T>(k);
    case 4: return gen_phys<D, T>(k);
    }
    return gen_cf<D, T>(k);
}
template <int D, class T>
void k15_perm(Ctx& c)
{
    Src& s = c.s;
    int what = (int)s.draw(6);
    static const int P3[5][3] = {{1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
    Frame fr;
    int p = (int)s.draw(D == 3 ? 5 : 1);
    for (int d = 0; d < 3; d++) fr.perm[d] = P3[p][d];
    KCtx k{c};
    k.big = D == 2 && s.chance(1, 10);
    k.symmetric = true;
    size_t from = s.rec.size();
    std::function<Call<T>(KCtx&)> gen = [&](KCtx& kk) { return sym_call<D, T>(kk, what); };
    auto C0 = gen(k);
    auto C1 = rerun<T>(c, from, k, fr, gen);
    int impl = C0.fortran && C1.fortran ? gen_impl<T>(c) : 0;
    gen_threads(c);
    describe(c, C0);
    c.note(" relabelled to (", fr.perm[0], ",", fr.perm[1], ",", fr.perm[2], ") impl=", impl);
    c.label("relabelling");
    if (model_cells(C0) >= 2) c.nontrivial = true;
    for (auto* C : {&C0, &C1}) {
        for (auto& f : C->fields) f->reset();
        C->run(impl);
    }
    for (auto& f : C0.fields) {
        auto* g = twin(C1, f.get(), fr);
        if (g->n != f->n) fail("HARNESS relabelled array differs in size: ", f->name);
        for (long i = 0; i < f->n; i++) {
            int x[3], w, y[3];
            f->coord(i, x, w);
            for (int d = 0; d < 3; d++) y[fr.perm[d]] = x[d];
            int w1 = f->wstencil && w > 0 ? 1 + 2 * fr.perm[(w - 1) / 2] + (w - 1) % 2 : w;
            T a = f->ptr()[i], b = g->get(y, w1);
            if (f->fl[i] & 2)
                close<T>(c, a, b, f->out[i].m, cat(f->where(i), " and its value with relabelled directions"));
            else if (std::memcmp(&a, &b, sizeof(T)) != 0)
                fail(f->where(i), " is ", a, " but ", b, " with relabelled directions");
        }
    }
}
template <int D, class T>
void k15_reduce(Ctx& c)
{
    Src& s = c.s;
    int what = (int)s.draw(6);
    KCtx k{c};
    k.big = false;
    k.symmetric = true;
    k.fr.collapse = 1 << (D - 1);
    size_t from = s.rec.size();
    auto C0 = sym_call<D, T>(k, what);
    std::function<Call<T>(KCtx&)> gen = [&](KCtx& kk) { return sym_call<D - 1, T>(kk, what); };
    Frame fr;
    auto C1 = rerun<T>(c, from, k, fr, gen);
    int impl = C0.fortran && C1.fortran ? gen_impl<T>(c) : 0;
    gen_threads(c);
    describe(c, C0);
    c.note(" against dimension ", D - 1, " impl=", impl);
    c.label(cat("reduction ", D, "D to ", D - 1, "D"));
    if (C0.dir == D - 1 || C0.special || C1.special) throw Discard{}; // the rule concerns the removed direction
    if (C0.dir != C1.dir || C0.name != C1.name) throw Discard{};
    // the diagonal sums over all directions
    if (C0.name == "v1diag" || C0.name == "v2diag" || C0.name == "poisson_diag") throw Discard{};
    C0.model();
    C1.model();
    for (auto& f : C0.fields) f->reset();
    for (auto& f : C1.fields) f->reset();
    C0.run(impl);
    C1.run(impl);
    long n = 0;
    for (auto& f : C0.fields) {
        Field<T>* g = nullptr;
        for (auto& h : C1.fields)
            if (h->name == f->name) g = h.get();
        if (!g) continue;
        for (long i = 0; i < f->n; i++) {
            if (!(f->fl[i] & 2)) continue;
            int x[3], w;
            f->coord(i, x, w);
            for (int d = D - 1; d < 3; d++) x[d] = 0;
            if (!g->inside(x, w)) continue;
            long j = g->idx(x, w);
            if (!(g->fl[j] & 2)) continue; // rule exists in one dimension only
            n++;
            close<T>(c, f->ptr()[i], g->ptr()[j], f->out[i].m + g->out[j].m,
                     cat(f->where(i), " in ", D, "-D against ", g->where(j), " in ", D - 1, "-D"));
        }
    }
    if (n >= 2) c.nontrivial = true;
}
PROP(K15)
{
    bool red = c.s.flip();
    dim_type(
        c,
        [&](auto dd, auto t) {
            constexpr int D = decltype(dd)::value;
            using T = decltype(t);
            if constexpr (D > 1) red ? k15_reduce<D, T>(c) : k15_perm<D, T>(c);
        },
        true);
}

// ------------------------------------------------------------------ K16
// One boundary segment whose ghosts are eliminated from the rows of the cells next to it.
struct Elim {
    int what; // 0 physical, 1 coarse-fine
    int dir, side, btype, order, r;
    Box p;    // the ghost cells
};
template <int D>
bool inside(const Box& b, const int* c)
{
    for (int d = 0; d < D; d++)
        if (c[d] < b.lo[d] || c[d] > b.hi[d]) return false;
    return true;
}
PROP(K16)
{
    dim_type(c, [&](auto dd, auto t) {
        constexpr int D = decltype(dd)::value;
        using T = decltype(t);
        Src& s = c.s;
        KCtx k{c};
        k.big = s.chance(1, 4);
        Op<D, T> O(k, true);
        int i0 = gen_impl<T>(c), i1 = gen_impl<T>(c), i2 = gen_impl<T>(c), i3 = gen_impl<T>(c);
        std::vector<Elim> E;
        int first = (int)s.draw(2 * D), count = s.weighted({4, 2, 2});
        for (int q = 0; q < 2 * D; q++) {
            Elim e;
            e.dir = (first + q) % D, e.side = ((first + q) / D) % 2;
            e.what = s.weighted({3, 2});
            e.btype = s.pick({0, 1, 4});
            e.order = (int)s.range(1, 2);
            e.r = (int)s.pick({2, 4, 3, 8, 5, 16, 6, 7, 32, 10});
            Seg sg[3];
            for (int d = 0; d < 3; d++) sg[d] = gen_seg(k, O.b, d, true);
            if (count == 0 && q > 0) continue;
            if (count == 1 && !s.chance(1, 2)) continue;
            if (q >= D && O.b.lo[e.dir] == O.b.hi[e.dir]) continue; // the other ghost is this side's second cell
            if (e.what == 0 && e.btype == 4 && D == 2 && e.dir == 1) continue; // no such rule
            for (int d = 0; d < D; d++) e.p.lo[d] = sg[d].lo, e.p.hi[d] = sg[d].hi;
            e.p.lo[e.dir] = e.p.hi[e.dir] = e.side ? O.b.hi[e.dir] + 1 : O.b.lo[e.dir] - 1;
            E.push_back(e);
        }
        if (E.empty()) throw Discard{};
        int th = gen_threads(c);
        c.note(std::is_same_v<T, float> ? "float " : "double ", O.C.text, " threads=", th, " impls=", i0, i1, i2, i3);
        for (auto& e : E) {
            c.note("; ", e.what ? cat("coarse-fine r=", e.r) : cat("physical btype=", e.btype), " order=", e.order, " dir=", e.dir,
                   " side=", e.side, " ghosts ", show(e.p, D));
            c.label(e.what ? cat("coarse-fine order ", e.order) : cat("physical btype ", e.btype, " order ", e.btype == 1 ? 0 : e.order));
        }
        c.label(cat("form ", O.kind));
        c.label(cat(E.size(), " segments"));
        c.nontrivial = true;
        T* dxp = O.dx.v;
        T* sp = O.st->ptr();
        const T alphaB = 2, betaB = 1, dirf = 2, neuf = 0; // the Robin coefficients the stencil routines assume
        auto P = split<D>(O.b);
        auto ds = [&](const Elim& e) {
            if constexpr (D == 1)
                return tp(e.side);
            else
                return tp(e.dir, e.side);
        };
        auto rds = [&](const Elim& e) {
            if constexpr (D == 1)
                return tp(e.r, e.side);
            else
                return tp(e.r, e.dir, e.side);
        };
        // assemble, eliminating as a level solver does
        O.assemble(i1, [&] {
            int impl = i2;
            for (auto& e : E)
                if (e.what == 0) {
                    auto Q = split<D>(e.p);
                    if (O.kind == 2)
                        KCALL(S, adj_poisson_offdiag, adjcellpoissonoffdiag,
                              tc(P, Q, ds(e), tp(e.btype, e.order, dxp, dirf, neuf, O.beta, O.gs, sp)));
                    else
                        KCALL(S, adj_offdiag, adjcelldiffusionoffdiag,
                              tc(P, Q, ds(e), tp(e.btype, e.order, dxp, dirf, neuf, O.beta), ptrs<D, T>(O.B.data()), tp(O.gs, sp)));
                }
        });
        for (auto& e : E) {
            int impl = i2;
            auto Q = split<D>(e.p);
            if (e.what == 0) {
                if (O.kind == 2)
                    KCALL(S, adj_poisson_diag, adjcellpoissondiag, tc(P, Q, ds(e), tp(e.btype, e.order, dxp, O.beta, O.gs, sp)));
                else
                    KCALL(S, adj_diag, adjcelldiffusiondiag,
                          tc(P, Q, ds(e), tp(e.btype, e.order, dxp, O.beta), ptrs<D, T>(O.B.data()), tp(O.gs, sp)));
            } else {
                if (O.kind == 2)
                    KCALL(S, adj_poisson_cf_diag, adjcellpoissoncfdiag, tc(P, Q, rds(e), tp(e.order, dxp, O.beta, O.gs, sp)));
                else
                    KCALL(S, adj_cf_diag, adjcelldiffusioncfdiag,
                          tc(P, Q, rds(e), tp(e.order, dxp, O.beta), ptrs<D, T>(O.B.data()), tp(O.gs, sp)));
                KCALL(S, adj_cf_offdiag, adjcelldiffusioncfoffdiag, tc(P, Q, rds(e), tp(e.order, O.gs, sp)));
            }
        }
        // rows of the reduced equations: physical ghosts no longer take part, coarse-fine ghosts hold the coarse value
        std::vector<long double> rows, mag, extra;
        each<D>(O.b, [&](const int* x) {
            long double v = O.row(x, O.st), m = O.row_mag(x), ex = 0;
            for (auto& e : E) {
                Off g(x, e.dir, 2 * e.side - 1);
                if (!inside<D>(e.p, g)) continue;
                Off u2(x, e.dir, 1 - 2 * e.side);
                long double A = std::fabs((long double)O.beta) / ((long double)dxp[e.dir] * dxp[e.dir]);
                long double bb = O.kind == 2 ? 1 : (long double)O.B[e.dir]->get(Off(x, e.dir, e.side));
                auto ab = [&](const int* c) { return std::fabs((long double)O.u->get(c)); };
                m += 4 * A * std::fabs(bb) * (ab(x) + ab(g) + ab(u2));
                if (e.what) continue;
                v -= (long double)O.st->get(x, 2 * e.dir + 1 + e.side) * O.u->get(g);
                m += std::fabs((long double)O.st->get(x, 2 * e.dir + 1 + e.side) * O.u->get(g));
                if (e.btype == 0 && e.order == 2 && (D == 3 || (D == 2 && O.kind < 2)))
                    ex += (long double)O.beta * bb / (3.0L * dxp[e.dir] * dxp[e.dir]) * O.u->get(x);
            }
            rows.push_back(v), mag.push_back(m), extra.push_back(ex);
        });
        // fill the ghosts instead, and apply the operator matrix-free
        auto PP = ::pair<D>(O.b);
        for (auto& e : E)
            if (e.what == 0) {
                int impl = i3, face = 2 * e.dir + e.side, type = 1;
                int L[3] = {e.p.lo[0], e.p.lo[1], e.p.lo[2]}, H[3] = {e.p.hi[0], e.p.hi[1], e.p.hi[2]};
                auto sel = [&] {
                    if constexpr (D == 1)
                        return tp(&L[0], &H[0], e.order, face, e.btype, alphaB, betaB);
                    else
                        return tp(&L[0], &H[0], e.order, face, type, e.btype, alphaB, betaB);
                };
                if (O.kind == 2)
                    KCALL(B, set_poisson_bc, cellsetpoissoncorrectionbc, tc(PP, tp(dxp, O.gu, O.u->ptr()), sel()));
                else
                    KCALL(B, set_bc, cellsetcorrectionbc,
                          tc(PP, tp(dxp, 0), ptrs<D, T>(O.B.data()), tp(O.gu, O.u->ptr()), sel()));
            } else
                each<D>(e.p, [&](const int* x) {
                    // Lagrange interpolation through the coarse cell and the two fine cells inside (one for first order)
                    int in = 1 - 2 * e.side;
                    long double uc = O.u->get(x), u1 = O.u->get(Off(x, e.dir, in)), u2 = O.u->get(Off(x, e.dir, 2 * in));
                    // distances from the interface in halves of the fine mesh width: ghost 1, coarse r, fine -1 and -3
                    long double r = e.order == 1 ? 2 : e.r, v; // the first order weights are those of ratio two
                    if (e.order == 1)
                        v = uc * (1 - -1) / (r - -1) + u1 * (1 - r) / (-1 - r);
                    else
                        v = uc * ((1 - -1) * (1 - -3)) / ((r - -1) * (r - -3)) + u1 * ((1 - r) * (1 - -3)) / ((-1 - r) * (-1 - -3)) +
                            u2 * ((1 - r) * (1 - -1)) / ((-3 - r) * (-3 - -1));
                    O.u->ptr()[O.u->idx(x)] = (T)v;
                });
        O.flux(i0);
        O.apply(i0);
        long n = 0;
        each<D>(O.b, [&](const int* x) {
            long double want = O.r->get(x), m = mag[n], got = rows[n], ex = extra[n];
            n++;
            if (ex != 0 && m < (long double)std::numeric_limits<T>::max() / 1024) {
                long double tol = 256 * std::numeric_limits<T>::epsilon() * m;
                if (std::fabs(got - want) > tol && std::fabs(got - ex - want) <= tol) {
                    c.label("known:dirichlet-diag");
                    return;
                }
            }
            close<T>(c, got, want, m, cat("equation with the ghosts eliminated against the operator with the ghosts filled in at ", O.r->where(O.r->idx(x))));
        });
    });
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
