// generator functors over dimension and precision
#pragma once
#include "kcommon.hpp"

#define GEN(NAME, FN) \
    template <int D, class T> \
    struct NAME { \
        Call<T> operator()(KCtx& k) const { return FN; } \
    };
template <class T>
Call<T> thr(KCtx& k, Call<T> C)
{
    k.threads = gen_threads(k.c);
    return C;
}
GEN(GFlux, (thr<T>(k, gen_flux<D, T>(k))))
GEN(GApply, (thr<T>(k, gen_apply<D, T>(k))))
GEN(GFace, (gen_bc_face<D, T>(k)))
template <int D, class T>
struct GEdge {
    Call<T> operator()(KCtx& k) const
    {
        if constexpr (D == 1)
            return gen_bc_edge<2, T>(k);
        else
            return gen_bc_edge<D, T>(k);
    }
};
GEN(GAsm, (gen_assemble<D, T>(k)))
GEN(GPhys, (gen_phys<D, T>(k)))
GEN(GCf, (gen_cf<D, T>(k)))
GEN(GHom, (k.c.s.chance(1, 4) ? gen_icorner<T>(k) : gen_homog<T>(k)))
GEN(GC2f, (gen_c2f<T>(k)))

