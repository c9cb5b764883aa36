// dispatch by its contract (proved under C19): a worker receives some range 0 <= low <= high <= n; here, one arbitrary such range
#ifndef QDP_DISPATCH_H
#define QDP_DISPATCH_H
#include "qdp_diagnostics.h"
#include "qdp_config.h"
#ifdef QVC_IR
extern "C" int qvc_range(int which, int count);
#else
extern "C" { inline int* qvc_rangep() { static int r[3]; return r; } inline int qvc_range(int w, int n) { qvc_rangep()[2] = n; return qvc_rangep()[w]; } __attribute__((used, visibility("default"))) inline int qvc_getcount() { return qvc_rangep()[2]; } __attribute__((used, visibility("default"))) inline void qvc_setrange(int a, int b) { qvc_rangep()[0] = a; qvc_rangep()[1] = b; qvc_rangep()[2] = -1; } }
namespace { struct UseRange { UseRange() { qvc_setrange(0, 0); qvc_getcount(); } } useRange; }
#endif
namespace QDP {
inline int qdpNumThreads() { return 1; }
inline int qdpThreadNum() { return 0; }
template<class Arg> void dispatch_to_threads(int numSiteTable, Arg a, void (*func)(int,int,int,Arg*)) { func(qvc_range(0, numSiteTable), qvc_range(1, numSiteTable), 0, &a); }
}
#endif
