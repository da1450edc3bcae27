#ifndef MANI_H
#define MANI_H
#include "h.h"
#include "Others/SparseMatrix.h"

// a manifold configuration under test
struct MC {
    std::string name;
    std::function<Manifold *()> make;
    std::function<double(const Variable &)> ptErr;                 // distance from the point constraint
    std::function<double(const Variable &, const Vector &)> tanErr; // extrinsic vector: distance from the tangent / horizontal space
    int iso = 1;      // vector transport is isometric
    int inv = 1;      // inverse vector transport available
    int diff = 2;     // 0 none, 1 only same direction, 2 general
    int co = 0;       // cotangent
    int quot = 0;     // quotient: differentials are compared after horizontal projection
    int retrExact = 1;
    int norm = 0;     // ObtainNorVer available
    int intrinsic = 1; // ObtainIntr/ObtainExtr implemented
    int tranh = 1;    // TranHInvTran consistent with VT
    int hhr = 0;      // locking condition variant
    double sc = 0.7;  // step length scale
    int hess = 1;
    int r1 = 1;       // rank-one operator update represents the metric
    int well = 0;     // well conditioned base points only (exponential overflows otherwise)
    int small = 0;    // retraction only locally defined
};
std::vector<MC> manifolds(bool thorough);

inline bool intr(const Manifold *M) { return M->GetIsIntrinsic(); }
inline Vector toEx(const Manifold *M, const Variable &x, const Vector &v) {
    if (!intr(M)) return v;
    Vector e = M->GetEMPTYEXTR(); M->ObtainExtr(x, v, &e); return e;
}
inline Vector scaled(const Manifold *M, const Variable &x, double a, const Vector &v) { Vector r(v); M->ScalarTimesVector(x, a, v, &r); return r; }
inline Vector randTan(const Manifold *M, const Variable &x, Rng &g, double s) {
    Vector w = M->GetEMPTYEXTR(); randfill(w, g);
    Vector t = M->GetEMPTYEXTR(); M->ExtrProjection(x, w, &t);
    if (intr(M)) { Vector c = M->GetEMPTYINTR(); M->ObtainIntr(x, t, &c); t = c; }
    double n = std::sqrt(M->Metric(x, t, t));
    return scaled(M, x, s / n, t);
}
inline Vector emptyT(const Manifold *M) { return M->GetEMPTY(); }
inline Variable randPt(const Manifold *M, Rng &g) { genrandseed((unsigned)(g.next() % 1000000)); return M->RandominManifold(); }
#endif
