// Minimal stand-ins for the four BLAS/LAPACK routines the block smoothers call (no LAPACK in
// the sandbox): LU with partial pivoting, column-major.
#include <cmath>
#include <utility>
extern "C" {
void dgetrf_(const int* m, const int* n, double* a, const int* lda, int* ipiv, int* info)
{
    *info = 0;
    int N = *n, L = *lda;
    (void)m;
    for (int k = 0; k < N; k++) {
        int p = k;
        for (int i = k + 1; i < N; i++)
            if (std::fabs(a[i + k * L]) > std::fabs(a[p + k * L])) p = i;
        ipiv[k] = p + 1;
        if (a[p + k * L] == 0) {
            *info = k + 1;
            return;
        }
        if (p != k)
            for (int j = 0; j < N; j++) std::swap(a[p + j * L], a[k + j * L]);
        for (int i = k + 1; i < N; i++) {
            a[i + k * L] /= a[k + k * L];
            for (int j = k + 1; j < N; j++) a[i + j * L] -= a[i + k * L] * a[k + j * L];
        }
    }
}
void dgetrs_(const char* trans, const int* n, const int* nrhs, const double* a, const int* lda,
             const int* ipiv, double* b, const int* ldb, int* info, int)
{
    *info = 0;
    int N = *n, L = *lda;
    const bool t = *trans != 'N' && *trans != 'n';
    for (int r = 0; r < *nrhs; r++) {
        double* x = b + r * *ldb;
        if (t) { // (P'LU)' x = U'L'P x
            for (int i = 0; i < N; i++) {
                for (int j = 0; j < i; j++) x[i] -= a[j + i * L] * x[j];
                x[i] /= a[i + i * L];
            }
            for (int i = N - 1; i >= 0; i--)
                for (int j = i + 1; j < N; j++) x[i] -= a[j + i * L] * x[j];
            for (int k = N - 1; k >= 0; k--)
                if (ipiv[k] - 1 != k) std::swap(x[k], x[ipiv[k] - 1]);
            continue;
        }
        for (int k = 0; k < N; k++)
            if (ipiv[k] - 1 != k) std::swap(x[k], x[ipiv[k] - 1]);
        for (int i = 0; i < N; i++)
            for (int j = 0; j < i; j++) x[i] -= a[i + j * L] * x[j];
        for (int i = N - 1; i >= 0; i--) {
            for (int j = i + 1; j < N; j++) x[i] -= a[i + j * L] * x[j];
            x[i] /= a[i + i * L];
        }
    }
}
void dgesv_(const int* n, const int* nrhs, double* a, const int* lda, int* ipiv, double* b,
            const int* ldb, int* info)
{
    dgetrf_(n, n, a, lda, ipiv, info);
    if (*info == 0) dgetrs_("N", n, nrhs, a, lda, ipiv, b, ldb, info, 1);
}
void dcopy_(const int* n, const double* x, const int* incx, double* y, const int* incy)
{
    for (int i = 0; i < *n; i++) y[i * *incy] = x[i * *incx];
}
}
