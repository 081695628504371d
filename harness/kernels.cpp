// K01..K09: every kernel against its reference model, and the Fortran twin against the same
// model.  K10 reuses the same calls under sanitizers.
#include "kgen.hpp"

template <class T>
void judge(Ctx& c, KCtx& k, Call<T>& C)
{
    c.note(C.name, " ", std::is_same_v<T, float> ? "float " : "double ", C.text, " threads=", k.threads);
    C.model();
    long written = 0;
    for (auto& f : C.fields) {
        f->poison();
        for (auto x : f->fl) written += (x >> 1) & 1;
    }
    c.label(C.name);
    c.label(std::is_same_v<T, float> ? "float" : "double");
    if (written >= 2) c.nontrivial = true;
    if (written == 0) c.label("rule writes nothing");
    if (C.cells > 2000) c.label("large box");
    if (C.cells == 1) c.label("single cell");
    use_threads(k.threads);
    int impls = std::is_same_v<T, double> && C.fortran ? 2 : 1;
    for (int impl = 0; impl < impls; impl++) {
        for (auto& f : C.fields) f->reset();
        C.run(impl);
        for (auto& f : C.fields) f->check(impl ? "reference Fortran" : "Thrust kernel");
    }
    if (impls == 2) c.label("compared with Fortran");
}

template <template <int, class> class G>
void dims(Ctx& c)
{
    Src& s = c.s;
    int D = 1 + s.weighted({2, 3, 4});
    bool flt = s.chance(1, 3);
    KCtx k{c};
    if (PBT_SAN) k.big = s.chance(1, 8);
    c.label(cat(D, "D"));
    auto go = [&](auto g) {
        auto C = g(k);
        judge(c, k, C);
    };
    if (D == 1) flt ? go(G<1, float>()) : go(G<1, double>());
    if (D == 2) flt ? go(G<2, float>()) : go(G<2, double>());
    if (D == 3) flt ? go(G<3, float>()) : go(G<3, double>());
}
PROP(K01) { dims<GFlux>(c); }
PROP(K02) { dims<GApply>(c); }
PROP(K03) { dims<GFace>(c); }
PROP(K04) { dims<GEdge>(c); }
PROP(K05) { dims<GHom>(c); }
PROP(K06) { dims<GAsm>(c); }
PROP(K07) { dims<GPhys>(c); }
PROP(K08) { dims<GCf>(c); }
PROP(K09) { dims<GC2f>(c); }
PROP(K10)
{
    switch (c.s.draw(9)) {
    case 0: dims<GFlux>(c); break;
    case 1: dims<GApply>(c); break;
    case 2: dims<GFace>(c); break;
    case 3: dims<GEdge>(c); break;
    case 4: dims<GHom>(c); break;
    case 5: dims<GAsm>(c); break;
    case 6: dims<GPhys>(c); break;
    case 7: dims<GCf>(c); break;
    case 8: dims<GC2f>(c); break;
    }
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
