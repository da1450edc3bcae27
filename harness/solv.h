#ifndef SOLV_H
#define SOLV_H
#include "mani.h"
#include "Solvers/RSD.h"
#include "Solvers/RNewton.h"
#include "Solvers/RCG.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/RBFGS.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/RGS.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include "Problems/StieSPCA.h"

extern long NF, NG, NH, NR;          // evaluations really performed
// cost given by closures on the plain entries
struct FP : public Problem {
    std::function<double(const Vd &)> F;
    std::function<Vd(const Vd &)> G;
    std::function<Vd(const Vd &, const Vd &)> HV;
    std::function<Vd(const Vd &)> PC;   // preconditioner (Euclidean)
    double f(const Variable &x) const override { NF++; return F(data(x)); }
    Vector &EucGrad(const Variable &x, Vector *r) const override { NG++; Vd g = G(data(x)); Vector e(x); e.RemoveAllFromFields(); fill(e, g); *r = e; return *r; }
    Vector &EucHessianEta(const Variable &x, const Vector &eta, Vector *r) const override { NH++; Vd h = HV(data(x), data(eta)); Vector e(x); e.RemoveAllFromFields(); fill(e, h); *r = e; return *r; }
    Vector &PreConditioner(const Variable &x, const Vector &eta, Vector *r) const override { if (!PC) { *r = eta; return *r; } Vd h = PC(data(eta)); Vector e(eta); fill(e, h); *r = e; return *r; }
    ~FP() {}
};
template <class M> struct CM : public M { // counts retractions
    template <class... A> CM(A... a) : M(a...) {}
    Variable &Retraction(const Variable &x, const Vector &eta, Variable *r) const override { NR++; return M::Retraction(x, eta, r); }
};
struct Case { std::string name; Manifold *M; FP *P; Variable x0; };
Case mkCase(int k, Rng &g, bool intrOnly = false);   // -1 when out of range: M == nullptr
int nCases();
// quadratic plus trigonometric cost on vectors of length n (sym: gradient symmetric for symmetric input)
void smoothCost(FP *P, int n, Rng &g, int kind, bool sym = false);
inline double val(const Problem *P, const Variable &x) { Variable z(x); z.RemoveAllFromFields(); long a = NF; double v = P->f(z); NF = a; return v; }
inline Vector gradAt(const Problem *P, const Manifold *M, const Variable &x) { Variable z(x); z.RemoveAllFromFields(); long a = NF, b = NG; P->f(z); Vector e = M->GetEMPTY(); P->Grad(z, &e); NF = a; NG = b; return e; }
inline bool sameV(double a, double b, double t = 1e-11) { return std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)) || a == b; }
inline double met(const Manifold *M, const Variable &x, const Vector &a, const Vector &b) { return M->Metric(x, a, b); }
inline Vector lc(const Manifold *M, const Variable &x, double a, const Vector &u, double b, const Vector &v) { Vector r(u); M->VectorLinearCombination(x, a, u, b, v, &r); return r; }
inline double rel(const Manifold *M, const Variable &x, const Vector &a, const Vector &b) { Vector d = lc(M, x, 1, a, -1, b); double na = std::sqrt(std::fabs(met(M, x, a, a))), nb = std::sqrt(std::fabs(met(M, x, b, b))); return std::sqrt(std::fabs(met(M, x, d, d))) / (1e-12 + std::max(na, nb)); }
#endif
