// Entry points through which the verifier drives the real QDP++ code.
// Nothing here computes: raw arrays are wrapped into the real classes, then one real operation is called.
#ifndef QVC_H
#define QVC_H
#include "qdp.h"
using namespace QDP;
typedef REAL R;
// A Subset over a caller supplied site table.  (private members are set directly; -fno-access-control)
#define MKSUB(s, tab, n, ord, st, en) \
  multi1d<int> s##_t((int*)(tab), (n)); Subset s; s.ordRep = (ord) != 0; s.startSite = (st); s.endSite = (en); s.sub_index = 0; s.sitetable = &s##_t; s.set = 0;
#define SUBARGS const int* tab, int n, int ord, int st, int en
#define H extern "C" __attribute__((noinline)) void
template<class L, class X> inline L wrap(X* p) { return L((typename L::Subtype_t*)p, 0.0f); }
#define LAT(L, v, p) L v((L::Subtype_t*)(p), 0.0f)
typedef OLattice< PSpinVector<PColorVector<RComplex<R>, 3>, 4> > LFerm;
typedef OScalar< PScalar<PScalar<RScalar<R> > > > SReal;
typedef OScalar< PScalar<PScalar<RComplex<R> > > > SCplx;
#endif
