#include "h.h"
// real scalar times fermion: every form offered by the specialised BLAS layer
#define E(name, body) H h_##name(R* d, R* x, R* y, R a, R b, SUBARGS) { \
  MKSUB(s, tab, n, ord, st, en); LAT(LFerm, D, d); LAT(LFerm, X, x); LAT(LFerm, Y, y); SReal A(a); SReal B(b); body; }
#define EC(name, body) H h_##name(R* d, R* x, R* y, R ar, R ai, R br, R bi, SUBARGS) { \
  MKSUB(s, tab, n, ord, st, en); LAT(LFerm, D, d); LAT(LFerm, X, x); LAT(LFerm, Y, y); SCplx A; A.elem().elem().elem() = RComplex<R>(ar, ai); SCplx B; B.elem().elem().elem() = RComplex<R>(br, bi); body; }
#ifdef B_REAL
E(peq_ax, D[s] += A*X)
E(meq_ax, D[s] -= A*X)
E(peq_xa, D[s] += X*A)
E(meq_xa, D[s] -= X*A)
E(ax_p_y, D[s] = A*X + Y)
E(y_p_ax, D[s] = Y + A*X)
E(xa_p_y, D[s] = X*A + Y)
E(y_p_xa, D[s] = Y + X*A)
E(ax_m_y, D[s] = A*X - Y)
E(y_m_ax, D[s] = Y - A*X)
E(xa_m_y, D[s] = X*A - Y)
E(y_m_xa, D[s] = Y - X*A)
E(x_p_y, D[s] = X + Y)
E(x_m_y, D[s] = X - Y)
E(ax, D[s] = A*X)
E(xa, D[s] = X*A)
E(teq_a, D[s] *= A)
E(deq_a, D[s] /= A)
E(peq_x, D[s] += X)
E(meq_x, D[s] -= X)
E(ax_p_by, D[s] = A*X + B*Y)
E(xa_p_by, D[s] = X*A + B*Y)
E(ax_p_yb, D[s] = A*X + Y*B)
E(xa_p_yb, D[s] = X*A + Y*B)
E(ax_m_by, D[s] = A*X - B*Y)
E(xa_m_by, D[s] = X*A - B*Y)
E(ax_m_yb, D[s] = A*X - Y*B)
E(xa_m_yb, D[s] = X*A - Y*B)
#endif
#ifdef B_CPLX
EC(c_teq_a, D[s] *= A)
EC(c_ax, D[s] = A*X)
EC(c_xa, D[s] = X*A)
EC(c_peq_ax, D[s] += A*X)
EC(c_peq_xa, D[s] += X*A)
EC(c_meq_ax, D[s] -= A*X)
EC(c_meq_xa, D[s] -= X*A)
EC(c_ax_p_y, D[s] = A*X + Y)
EC(c_xa_p_y, D[s] = X*A + Y)
EC(c_ax_m_y, D[s] = A*X - Y)
EC(c_xa_m_y, D[s] = X*A - Y)
EC(c_y_p_ax, D[s] = Y + A*X)
EC(c_y_p_xa, D[s] = Y + X*A)
EC(c_y_m_ax, D[s] = Y - A*X)
EC(c_y_m_xa, D[s] = Y - X*A)
EC(c_ax_p_by, D[s] = A*X + B*Y)
EC(c_xa_p_by, D[s] = X*A + B*Y)
EC(c_ax_p_yb, D[s] = A*X + Y*B)
EC(c_xa_p_yb, D[s] = X*A + Y*B)
EC(c_ax_m_by, D[s] = A*X - B*Y)
EC(c_xa_m_by, D[s] = X*A - B*Y)
EC(c_ax_m_yb, D[s] = A*X - Y*B)
EC(c_xa_m_yb, D[s] = X*A - Y*B)
#endif
#ifdef B_RED
#include "scalarsite_generic/generic_blas_vadd.h"
#include "scalarsite_generic/generic_blas_vsub.h"
// reductions and the raw kernels
#define SETALL(n, st, en) { all.ordRep = true; all.startSite = (st); all.endSite = (en); }
H h_norm2_s(DOUBLE* out, R* x, SUBARGS) { MKSUB(s, tab, n, ord, st, en); LAT(LFerm, X, x); out[0] = norm2(X, s).elem().elem().elem().elem(); }
H h_norm2_all(DOUBLE* out, R* x, SUBARGS) { SETALL(n, st, en); LAT(LFerm, X, x); out[0] = norm2(X).elem().elem().elem().elem(); }
H h_ip_s(DOUBLE* out, R* x, R* y, SUBARGS) { MKSUB(s, tab, n, ord, st, en); LAT(LFerm, X, x); LAT(LFerm, Y, y); auto r = innerProduct(X, Y, s); out[0] = r.elem().elem().elem().real(); out[1] = r.elem().elem().elem().imag(); }
H h_ip_all(DOUBLE* out, R* x, R* y, SUBARGS) { SETALL(n, st, en); LAT(LFerm, X, x); LAT(LFerm, Y, y); auto r = innerProduct(X, Y); out[0] = r.elem().elem().elem().real(); out[1] = r.elem().elem().elem().imag(); }
H h_ipr_s(DOUBLE* out, R* x, R* y, SUBARGS) { MKSUB(s, tab, n, ord, st, en); LAT(LFerm, X, x); LAT(LFerm, Y, y); out[0] = innerProductReal(X, Y, s).elem().elem().elem().elem(); }
H h_ipr_all(DOUBLE* out, R* x, R* y, SUBARGS) { SETALL(n, st, en); LAT(LFerm, X, x); LAT(LFerm, Y, y); out[0] = innerProductReal(X, Y).elem().elem().elem().elem(); }
// arrays of lattices: lat is an array of N OLattice objects laid out as {mem, F}
H h_norm2_arr(DOUBLE* out, void* lat, int N, SUBARGS) { SETALL(n, st, en); multi1d<LFerm> m((LFerm*)lat, N); out[0] = norm2(m).elem().elem().elem().elem(); }
H h_ip_arr(DOUBLE* out, void* lat, void* lat2, int N, SUBARGS) { SETALL(n, st, en); multi1d<LFerm> m((LFerm*)lat, N), q((LFerm*)lat2, N); auto r = innerProduct(m, q); out[0] = r.elem().elem().elem().real(); out[1] = r.elem().elem().elem().imag(); }
H h_ipr_arr(DOUBLE* out, void* lat, void* lat2, int N, SUBARGS) { SETALL(n, st, en); multi1d<LFerm> m((LFerm*)lat, N), q((LFerm*)lat2, N); out[0] = innerProductReal(m, q).elem().elem().elem().elem(); }
// kernels
H h_k_vaxpy3(R* d, R* a, R* x, R* y, int n) { vaxpy3(d, a, x, y, n); }
H h_k_vaxmy3(R* d, R* a, R* x, R* y, int n) { vaxmy3(d, a, x, y, n); }
H h_k_vaxpby3(R* d, R* a, R* x, R* b, R* y, int n) { vaxpby3(d, a, x, b, y, n); }
H h_k_vaxmby3(R* d, R* a, R* x, R* b, R* y, int n) { vaxmby3(d, a, x, b, y, n); }
H h_k_vscal(R* d, R* a, R* x, int n) { vscal(d, a, x, n); }
H h_k_vadd(R* d, R* x, R* y, int n) { vadd(d, x, y, n); }
H h_k_vsub(R* d, R* x, R* y, int n) { vsub(d, x, y, n); }
H h_k_vcscal(R* d, R* a, R* x, int n) { vcscal(d, a, x, n); }
H h_k_vcaxpy3(R* d, R* a, R* x, R* y, int n) { vcaxpy3(d, a, x, y, n); }
H h_k_vcaxmy3(R* d, R* a, R* x, R* y, int n) { vcaxmy3(d, a, x, y, n); }
H h_k_vcaxpby3(R* d, R* a, R* x, R* b, R* y, int n) { vcaxpby3(d, a, x, b, y, n); }
H h_k_vcaxmby3(R* d, R* a, R* x, R* b, R* y, int n) { vcaxmby3(d, a, x, b, y, n); }
H h_k_vaxpy3_norm(R* d, R* a, R* x, R* y, int n, R* nrm) { vaxpy3_norm(d, a, x, y, n, nrm); }
H h_k_vaxmby3_norm(R* d, R* a, R* x, R* b, R* y, int n, R* nrm) { vaxmby3_norm(d, a, x, b, y, n, nrm); }
H h_k_sumsq(DOUBLE* out, R* x, int n) { local_sumsq(out, x, n); }
H h_k_vcdot(DOUBLE* re, DOUBLE* im, R* x, R* y, int n) { l_vcdot(re, im, x, y, n); }
H h_k_vcdot_real(DOUBLE* re, R* x, R* y, int n) { l_vcdot_real(re, x, y, n); }
#endif
