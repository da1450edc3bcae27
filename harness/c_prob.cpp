#include "mani.h"
// C16: cost, Euclidean gradient and Euclidean Hessian action of every bundled problem against central differences of the
// problem's own cost / gradient, under different evaluation histories
#include "Problems/StieBrockett.h"
#include "Problems/CStieBrockett.h"
#include "Problems/EucQuadratic.h"
#include "Problems/GrassRQ.h"
#include "Problems/SPDKarcherMean.h"
#include "Problems/SphereConvexHull.h"
#include "Problems/SphereSparsestVector.h"
#include "Problems/SphereTxRQ.h"
#include "Problems/StieSPCA.h"
#include "Problems/SFRQLyapunov.h"
#include "Problems/FRankESparseApprox.h"
#include "Problems/FRankEWeightApprox.h"
#include "Problems/FRankQ2FMatCompletion.h"
#include "Problems/CFRankQ2FBlindDecon2D.h"
#include "Problems/CSFRQPhaseRetrieval.h"
#include "Problems/ProdStieSumBrockett.h"
#include "Solvers/RBFGSSub.h"

struct PC {
    Problem *P; Manifold *M; Variable x;
    bool sym = false;      // directions are symmetric matrices
    bool hess = true;      // twice differentiable
    std::function<double(const Variable &)> nons;   // nonsmooth part of the cost (not part of the gradient)
    std::function<double(const Variable &)> ref;    // the documented cost, computed separately
    double tol = 1e-6;
    std::function<Vector(const Vector &)> proj;     // admissible directions
    Variable y; bool hasy = false;
};
static Vector rndE(int r, int c, Rng &g, const char *cx = nullptr) { Vector v = cx ? Vector(r, c, "complex") : Vector(r, c); randfill(v, g); return v; }
static Vector symE(int n, Rng &g, bool pd = false) { Vector v(n, n); randfill(v, g); Mx<double> A = mx<double>(v); A = pd ? (A * H(A)) + eyeM<double>(n) : A + H(A); setmx(v, A); return v; }
static Variable moved(const Variable &x, double h, const Vector &d) {
    Variable y(x); y.RemoveAllFromFields(); Vd a = data(x), b = data(d); double *p = y.ObtainWriteEntireData();
    for (size_t i = 0; i < a.size(); i++) p[i] = a[i] + h * b[i]; y.RemoveAllFromFields(); return y;
}
static Variable clean(const Variable &x) { Variable y = moved(x, 0, x); for (const char *k : {"U", "D", "V"}) if (x.FieldsExist(k)) { Vector f(x.Field(k)); y.AddToFields(k, f); } return y; }
static Vector emptyEx(const PC &c) { Vector v(c.x); v.RemoveAllFromFields(); v.NewMemoryOnWrite(); double *p = v.ObtainWriteEntireData(); for (integer i = 0; i < v.Getlength(); i++) p[i] = 7.25; return v; }
static Vector dir(const PC &c, Rng &g) { Vector d = emptyEx(c); randfill(d, g); if (c.sym) { Mx<double> A = mx<double>(d); setmx(d, A + H(A)); } if (c.proj) return c.proj(d); return d; }

static void pcase(PC &c, Rng &g, const std::string &id) {
    c.P->SetDomain(c.M);
    const Problem *P = c.P;
    auto F = [&](const Variable &y) { Variable z = clean(y); double v = P->f(z); return v; };
    auto fs = [&](const Variable &y) { Variable z = clean(y); double v = P->f(z); return c.nons ? v - c.nons(z) : v; };
    auto GR = [&](const Variable &y) { Variable z = clean(y); P->f(z); Vector e = emptyEx(c); P->EucGrad(z, &e); return data(e); };
    Variable x = clean(c.x); Vd x0 = data(x);
    double f0 = P->f(x); Vector eg = emptyEx(c); P->EucGrad(x, &eg); Vd G0 = data(eg);
    R.ok(id + "/finite", std::isfinite(f0) && finite(G0));
    R.ok(id + "/point-unchanged", dist(x0, data(x)) == 0);
    if (c.ref) R.le(id + "/cost", std::fabs(f0 - c.ref(x)), 1e-9 * (1 + std::fabs(f0)));
    auto deriv = [&](const std::function<double(double)> &q, double h) { // fourth order central difference
        return (8 * (q(h) - q(-h)) - (q(2 * h) - q(-2 * h))) / (12 * h); };
    double gs = nrm(G0), xs = 1 + nrm(x0);
    std::vector<Vector> D; for (int t = 0; t < 4; t++) D.push_back(dir(c, g));
    if (!c.sym && !c.proj) { Vector d = emptyEx(c); double *p = d.ObtainWriteEntireData(); for (integer i = 0; i < d.Getlength(); i++) p[i] = 0; p[g.i(d.Getlength())] = 1; D.push_back(d); }
    for (auto &d : D) {
        Vd dv = data(d); double nd = nrm(dv), h = 2e-3 / nd;
        double num = deriv([&](double t) { return fs(moved(x, t, d)); }, h), an = dotv(G0, dv);
        double m = std::fabs(fs(moved(x, h, d)) - fs(moved(x, -h, d))) / h;
        R.le(id + "/gradient", std::fabs(num - an), c.tol * (gs * nd + m + 1e-3 * xs * nd), str("num %g an %g", num, an));
    }
    if (c.hess) {
        Vector rg = c.M->GetEMPTY(); P->Grad(x, &rg);   // keeps EGrad at x
        for (auto &d : D) {
            Vd dv = data(d); double nd = nrm(dv), h = 2e-3 / nd;
            Vector hv = emptyEx(c); P->EucHessianEta(x, d, &hv); Vd an = data(hv);
            R.ok(id + "/direction-unchanged", dist(dv, data(d)) == 0);
            Vd a = GR(moved(x, h, d)), b = GR(moved(x, -h, d)), a2 = GR(moved(x, 2 * h, d)), b2 = GR(moved(x, -2 * h, d));
            Vd num(a.size()); for (size_t i = 0; i < a.size(); i++) num[i] = (8 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12 * h);
            if (c.sym) { Vector t = emptyEx(c); fill(t, num); Mx<double> A = mx<double>(t); setmx(t, 0.5 * (A + H(A))); num = data(t); fill(t, an); A = mx<double>(t); setmx(t, 0.5 * (A + H(A))); an = data(t); }
            R.le(id + "/hessian", dist(num, an), c.tol * 10 * (nrm(num) + nrm(an) + 1e-3 * gs * nd / xs), str("num %g an %g", nrm(num), nrm(an)));
            Vector h2 = emptyEx(c); P->EucHessianEta(x, d, &h2); R.le(id + "/hessian-repeat", dist(data(h2), an = data(hv)), 1e-12 * (1 + nrm(an)));
        }
        { // linear: zero direction
            Vector z = emptyEx(c), q = emptyEx(c); z.SetToZeros(); P->EucHessianEta(x, z, &q); R.le(id + "/hessian-zero", nrm(data(q)), 1e-12); }
    }
    // ---- histories: another point evaluated in between, copies, repeated evaluation
    Variable y = moved(x, 0.37, D[0]); if (c.sym) y = moved(x, 1e-3, D[0]); if (c.hasy) y = c.y;
    Vd Gy = GR(y); double fy = F(y);
    { Variable a = clean(x), b = clean(y); double fa = P->f(a), fb = P->f(b); Vector ea = emptyEx(c), e2 = emptyEx(c); P->EucGrad(a, &ea); P->EucGrad(b, &e2);
      R.le(id + "/interleaved", dist(data(ea), G0) + dist(data(e2), Gy) + std::fabs(fa - f0) + std::fabs(fb - fy), 1e-10 * (1 + gs + nrm(Gy) + std::fabs(f0) + std::fabs(fy))); }
    { Variable a = clean(x); P->f(a); Variable b(a); Vector e = emptyEx(c); P->EucGrad(b, &e); R.le(id + "/copy", dist(data(e), G0), 1e-12 * (1 + gs));
      b = clean(y); double fb = P->f(b); P->EucGrad(b, &e); R.le(id + "/reassigned", dist(data(e), Gy) + std::fabs(fb - fy), 1e-10 * (1 + nrm(Gy) + std::fabs(fy)));
      P->EucGrad(a, &e); R.le(id + "/after-copy", dist(data(e), G0), 1e-12 * (1 + gs)); }
    { Variable a = clean(x); double f1 = P->f(a), f2 = P->f(a); Vector e = emptyEx(c); P->EucGrad(a, &e); randfill(e, g); P->EucGrad(a, &e); R.le(id + "/repeat", dist(data(e), G0) + std::fabs(f1 - f2) + std::fabs(f1 - f0), 1e-11 * (1 + gs + std::fabs(f0))); }
    if (c.hess) { // Hessian at x after working at y
        Variable a = clean(x), b = clean(y); P->f(a); Vector r = c.M->GetEMPTY(); P->Grad(a, &r); Vector h0 = emptyEx(c); P->EucHessianEta(a, D[1], &h0); P->f(b); Vector r2 = c.M->GetEMPTY(); P->Grad(b, &r2); Vector h2 = emptyEx(c); P->EucHessianEta(b, D[1], &h2); P->EucHessianEta(a, D[1], &h2);
        R.le(id + "/hessian-interleaved", dist(data(h0), data(h2)), 1e-11 * (1 + nrm(data(h0)))); }
    // ---- numerical derivatives of the base class
    if (!c.nons && !c.sym && !c.proj) {
        Variable a = clean(x); P->f(a); Vector e = emptyEx(c); P->Problem::EucGrad(a, &e);
        R.le(id + "/numerical-gradient", dist(data(e), G0), 2e-4 * (1 + gs + std::fabs(f0)) * xs); R.ok(id + "/numerical-gradient-point", dist(data(a), x0) == 0);
        if (c.hess) { Variable b = clean(x); P->f(b); Vector r = c.M->GetEMPTY(); P->Grad(b, &r); Vector h0 = emptyEx(c), h1 = emptyEx(c), d = D[1]; if (c.hasy) { d = c.M->GetEMPTY(); c.M->ExtrProjection(b, D[1], &d); } P->EucHessianEta(b, d, &h0); P->Problem::EucHessianEta(b, d, &h1);
            R.le(id + "/numerical-hessian", dist(data(h0), data(h1)), 1e-3 * (1 + gs + nrm(data(h0))) * xs);
            Vector z = emptyEx(c); z.SetToZeros(); if (c.hasy) c.M->ScalarTimesVector(b, 0, d, &z); P->Problem::EucHessianEta(b, z, &h1); R.le(id + "/numerical-hessian-zero", nrm(data(h1)), 1e-12); } }
}

static double reDot(const Vd &a, const Vd &b) { return dotv(a, b); }
static double l1(const Variable &x) { double s = 0; for (double v : data(x)) s += std::fabs(v); return s; }
template <class T> static double brock(const Mx<T> &B, const Vd &D, const Mx<T> &X) { Mx<T> Y = B * X; for (int j = 0; j < Y.c; j++) for (int i = 0; i < Y.r; i++) Y(i, j) *= D[j]; return re_dot(X, Y); }
static SparseMatrix *spm(int m, int n, const Mx<double> &A) { std::vector<integer> *ir = new std::vector<integer>, *jc = new std::vector<integer>; Vd *v = new Vd; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (A(i, j) != 0) { ir->push_back(i); jc->push_back(j); v->push_back(A(i, j)); } return new SparseMatrix(m, n, ir->data(), jc->data(), v->data(), (integer)v->size()); }
static SparseMatrix *spc(int m, int n, const Mx<cd> &A) { std::vector<integer> *ir = new std::vector<integer>, *jc = new std::vector<integer>; std::vector<cd> *v = new std::vector<cd>; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (A(i, j) != 0.0) { ir->push_back(i); jc->push_back(j); v->push_back(A(i, j)); } return new SparseMatrix(m, n, ir->data(), jc->data(), (realdpcomplex *)v->data(), (integer)v->size()); }
static Mx<double> sparseR(int m, int n, Rng &g, bool sym) { Mx<double> A(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (g.i(3) == 0 || i == j) A(i, j) = g.n(); if (sym) A = A + H(A); return A; }

typedef std::function<PC(Rng &)> Mk;
static std::vector<std::pair<std::string, Mk>> problems() {
    std::vector<std::pair<std::string, Mk>> L;
    auto add = [&](const char *n, Mk m) { L.push_back({n, m}); };
    add("StieBrockett", [](Rng &g) { PC c; int n = 2 + g.i(6), p = 1 + g.i(n); Vector B = symE(n, g), D = rndE(p, 1, g); c.P = new StieBrockett(B, D); Stiefel *M = new Stiefel(n, p); int s = g.i(5); if (s == 1) M->ChooseParamsSet2(); if (s == 2) M->ChooseParamsSet4(); if (s == 3) M->ChooseParamsSet5(); c.M = M; c.x = g.i(2) ? M->RandominManifold() : rndE(n, p, g);
        Mx<double> b = mx<double>(B); Vd d = data(D); c.ref = [b, d](const Variable &x) { return brock(b, d, mx<double>(x)); }; return c; });
    add("CStieBrockett", [](Rng &g) { PC c; int n = 2 + g.i(5), p = 1 + g.i(n); Vector B = rndE(n, n, g, "c"), D = rndE(p, 1, g, "c"); Vd d(p); for (auto &v : d) v = g.n(); { Vd t; for (double v : d) { t.push_back(v); t.push_back(0); } fill(D, t); } Mx<cd> b = mx<cd>(B); b = b + H(b); setmx(B, b); c.P = new CStieBrockett(B, D); CStiefel *M = new CStiefel(n, p); if (g.i(2)) M->ChooseParamsSet2(); c.M = M; c.x = g.i(2) ? M->RandominManifold() : rndE(n, p, g, "c");
        c.ref = [b, d](const Variable &x) { return brock(b, d, mx<cd>(x)); }; return c; });
    add("EucQuadratic", [](Rng &g) { PC c; int n = 1 + g.i(8); Vector A = symE(n, g); c.P = new EucQuadratic(A); c.M = new Euclidean(n); c.x = rndE(n, 1, g); Mx<double> a = mx<double>(A); c.ref = [a](const Variable &x) { Mx<double> X = mx<double>(x); return 0.5 * re_dot(X, a * X); }; return c; });
    add("GrassRQ", [](Rng &g) { PC c; int n = 2 + g.i(7), p = 1 + g.i(n); Vector B = symE(n, g); c.P = new GrassRQ(B, n, p); c.M = new Grassmann(n, p); c.M->SetIsIntrApproach(g.i(2)); c.x = c.M->RandominManifold(); Mx<double> a = mx<double>(B); c.ref = [a](const Variable &x) { Mx<double> X = mx<double>(x); return 0.5 * re_dot(X, a * X); }; return c; });
    add("SPDKarcherMean", [](Rng &g) { PC c; int n = 1 + g.i(4), num = 1 + g.i(4); Vector E(n, n), Ls(1, &E, num); Ls.NewMemoryOnWrite(); std::vector<Mx<double>> A;
        for (int i = 0; i < num; i++) { Vector t(n, n); Mx<double> l(n, n); for (int j = 0; j < n; j++) for (int k = j; k < n; k++) l(k, j) = k == j ? 0.7 + g.u() : 0.5 * g.n(); setmx(t, l); Ls.GetElement(i) = t; A.push_back(l); }
        c.P = new SPDKarcherMean(Ls, n, num); SPDManifold *M = new SPDManifold(n); int s = g.i(3); if (s == 1) M->ChooseParamsSet2(); if (s == 2) M->ChooseParamsSet3(); c.M = M; Mx<double> l(n, n); for (int j = 0; j < n; j++) for (int k = j; k < n; k++) l(k, j) = k == j ? 0.8 + 0.5 * g.u() : 0.4 * g.n(); Vector x(n, n); setmx(x, l * H(l)); c.x = x; c.sym = true; c.tol = 1e-5;
        c.ref = [A, n, num](const Variable &x) { double s = 0; for (auto &l_ : A) { Mx<double> V, K = solve(l_, H(solve(l_, mx<double>(x)))); Vd w; jacobi(0.5 * (K + H(K)), V, w); for (double v : w) s += std::log(v) * std::log(v); } return s / (2.0 * num); }; return c; });
    add("SphereConvexHull", [](Rng &g) { PC c; int n = 1 + g.i(5), N = 2 + g.i(5); Vector *W = new Vector[n]; for (int i = 0; i < n; i++) W[i] = rndE(N, 1, g); c.P = new SphereConvexHull(new Euclidean(N), W, n, nullptr, nullptr); c.M = new Sphere(std::max(n, 2) == n ? n : n); c.x = rndE(n, 1, g);
        c.ref = [W, n, N](const Variable &x) { Vd v(N), xx = data(x); for (int i = 0; i < n; i++) { Vd w = data(W[i]); for (int k = 0; k < N; k++) v[k] += xx[i] * xx[i] * w[k]; } return dotv(v, v); }; return c; });
    add("SphereSparsestVector", [](Rng &g) { PC c; int n = 2 + g.i(5), m = n + g.i(8); Vector Q = rndE(m, n, g); c.P = new SphereSparsestVector(Q); c.M = new Sphere(n); c.hess = false; for (;;) { c.x = rndE(n, 1, g); Mx<double> q = mx<double>(Q) * mx<double>(c.x); double mn = 1; for (auto v : q.a) mn = std::min(mn, std::fabs(v)); double s = 0; for (auto v : q.a) s = std::max(s, std::fabs(v)); if (mn > 0.06) break; setmx(Q, 1.3 * mx<double>(Q)); delete c.P; c.P = new SphereSparsestVector(Q); }
        Mx<double> q = mx<double>(Q); c.ref = [q](const Variable &x) { double s = 0; for (auto v : (q * mx<double>(x)).a) s += std::fabs(v); return s; }; return c; });
    add("StieSPCA", [](Rng &g) { PC c; int n = 2 + g.i(6), m = 1 + g.i(6), p = 1 + g.i(std::min(n, 3)); Vector B = rndE(m, n, g); double lam = g.u(); c.P = new StieSPCA(B, lam, n, m, p, 1); Stiefel *M = new Stiefel(n, p); if (g.i(2)) M->ChooseParamsSet4(); c.M = M; c.x = rndE(n, p, g); c.nons = [lam](const Variable &x) { return lam * l1(x); };
        Mx<double> b = mx<double>(B); c.ref = [b, lam](const Variable &x) { Mx<double> Y = b * mx<double>(x); return lam * l1(x) - re_dot(Y, Y); }; return c; });
    add("SFRQLyapunov", [](Rng &g) { PC c; int n = 2 + g.i(6), p = 1 + g.i(n), k = 1 + g.i(3); Mx<double> A = sparseR(n, n, g, true), B = sparseR(n, n, g, true); Vector C = rndE(n, k, g); c.P = new SFRQLyapunov(*spm(n, n, A), *spm(n, n, B), C, p); SymFixedRankQ *M = new SymFixedRankQ(n, p); int s = g.i(3); if (s == 1) M->ChooseParamsSet2(); if (s == 2) M->ChooseParamsSet3(); M->SetIsIntrApproach(g.i(2)); c.M = M; c.x = rndE(n, p, g);
        Mx<double> cc = mx<double>(C); c.ref = [A, B, cc](const Variable &x) { Mx<double> Y = mx<double>(x), Z = H(cc) * Y; return re_dot(H(Y) * (A * Y), H(Y) * (B * Y)) - re_dot(Z, Z); }; return c; });
    add("FRankESparseApprox", [](Rng &g) { PC c; int m = 2 + g.i(5), n = 2 + g.i(5), r = 1 + g.i(std::min(m, n) - 1); Vector A = rndE(m, n, g); double lam = g.u(); c.P = new FRankESparseApprox(A, lam, m, n, r, 1); c.M = new FixedRankE(m, n, r); c.x = c.M->RandominManifold(); c.y = c.M->RandominManifold(); c.hasy = true; c.nons = [lam](const Variable &x) { return lam * l1(x); };
        Mx<double> a = mx<double>(A); c.ref = [a, lam](const Variable &x) { Mx<double> Y = mx<double>(x) - a; return lam * l1(x) + re_dot(Y, Y); }; return c; });
    add("FRankEWeightApprox", [](Rng &g) { PC c; int m = 2 + g.i(4), n = 2 + g.i(4), r = 1 + g.i(std::min(m, n) - 1); Vector A = rndE(m, n, g), W = symE(m * n, g, true); c.P = new FRankEWeightApprox(A, W, m, n, r); c.M = new FixedRankE(m, n, r); c.x = c.M->RandominManifold(); c.y = c.M->RandominManifold(); c.hasy = true;
        Mx<double> a = mx<double>(A), w = mx<double>(W); c.ref = [a, w](const Variable &x) { Mx<double> Y = mx<double>(x) - a; Mx<double> y((int)Y.a.size(), 1); y.a = Y.a; return re_dot(y, w * y); }; return c; });
    add("FRankQ2FMatCompletion", [](Rng &g) { PC c; int m = 2 + g.i(5), n = 2 + g.i(5), r = 1 + g.i(std::min(m, n)); Mx<double> A = sparseR(m, n, g, false); std::vector<integer> *ir = new std::vector<integer>, *jc = new std::vector<integer>; Vd *v = new Vd; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (A(i, j) != 0) { ir->push_back(i); jc->push_back(j); v->push_back(A(i, j)); }
        c.P = new FRankQ2FMatCompletion(ir->data(), jc->data(), v->data(), (integer)v->size(), m, n, r); c.M = new FixedRankQ2F(m, n, r); c.M->SetIsIntrApproach(g.i(2)); c.x = c.M->RandominManifold();
        c.ref = [ir, jc, v](const Variable &x) { Mx<double> X = mx<double>(x.GetElement(0)) * H(mx<double>(x.GetElement(1))); double s = 0; for (size_t k = 0; k < v->size(); k++) { double d = X((*ir)[k], (*jc)[k]) - (*v)[k]; s += d * d; } return 0.5 * s; }; return c; });
    add("ProdStieSumBrockett", [](Rng &g) { PC c; int n = 2 + g.i(4), p = 1 + g.i(n), m = 2 + g.i(4), q = 1 + g.i(m); Vector B1 = symE(n, g), B2 = symE(n, g), B3 = symE(m, g), D1 = rndE(p, 1, g), D2 = rndE(p, 1, g), D3 = rndE(q, 1, g); c.P = new ProdStieSumBrockett(B1, D1, B2, D2, B3, D3);
        Stiefel *a = new Stiefel(n, p), *b = new Stiefel(m, q); if (g.i(2)) { a->ChooseParamsSet4(); } if (g.i(2)) b->ChooseParamsSet2(); c.M = new MultiManifolds(2, a, 2, b, 1); c.M->SetIsIntrApproach(g.i(2)); c.x = c.M->RandominManifold();
        Mx<double> b1 = mx<double>(B1), b2 = mx<double>(B2), b3 = mx<double>(B3); Vd d1 = data(D1), d2 = data(D2), d3 = data(D3); c.ref = [=](const Variable &x) { return brock(b1, d1, mx<double>(x.GetElement(0))) + brock(b2, d2, mx<double>(x.GetElement(1))) + brock(b3, d3, mx<double>(x.GetElement(2))); }; return c; });
    add("CFRankQ2FBlindDecon2D", [](Rng &g) { PC c; int n1 = 1 << g.i(3), n2 = 1 << (1 + g.i(2)), L_ = n1 * n2, k1 = 1 + g.i(L_), k2 = 1 + g.i(L_); bool pen = g.i(2); Vector y = rndE(L_, 1, g, "c"); Mx<cd> B(L_, k1), C(L_, k2); for (auto &v : B.a) v = cd(g.n(), g.n()); for (auto &v : C.a) v = cd(g.n(), g.n());
        double rho = pen ? 0.5 + g.u() : 0; c.P = new CFRankQ2FBlindDecon2D(y, *spc(L_, k1, B), *spc(L_, k2, C), n1, n2, 1, rho, 1.0 + g.u(), 0.5 + g.u()); c.M = new CFixedRankQ2F(k1, k2, 1); c.M->SetIsIntrApproach(false); c.x = c.M->RandominManifold(); c.hess = !pen; c.tol = pen ? 2e-5 : 1e-6; return c; });
    add("CSFRQPhaseRetrieval", [](Rng &g) { PC c; int n1 = 1 + g.i(3), n2 = 1 + g.i(3), l = 1 + g.i(3), n = n1 * n2, r = 1 + g.i(std::min(n, 2)); double kap = g.i(2) ? g.u() : 0; Vector b = rndE(n * l, 1, g), ms = rndE(n, l, g, "c"); c.P = new CSFRQPhaseRetrieval(b, ms, kap, n1, n2, l, r); CSymFixedRankQ *M = new CSymFixedRankQ(n, r); if (g.i(2)) M->ChooseParamsSet2(); M->SetIsIntrApproach(g.i(2)); c.M = M; c.x = rndE(n, r, g, "c");
        Vd bb = data(b); Mx<cd> ma = mx<cd>(ms); c.ref = [=](const Variable &x) { Mx<cd> X = mx<cd>(x); double s = 0, nb = 0; for (int i = 0; i < l; i++) for (int u = 0; u < n1; u++) for (int v = 0; v < n2; v++) { double e = 0; for (int j = 0; j < r; j++) { cd z = 0; for (int p = 0; p < n1; p++) for (int q = 0; q < n2; q++) z += ma(p + q * n1, i) * X(p + q * n1, j) * std::polar(1.0, -6.283185307179586476925 * ((double)u * p / n1 + (double)v * q / n2)); e += std::norm(z) / n; } double bv = bb[i * n + u + v * n1]; s += (e - bv) * (e - bv); nb += bv * bv; } return s / nb + kap * re_dot(X, X); }; return c; });
    // quadratic form of the Hessian of another problem on one of its tangent spaces
    add("SphereTxRQ", [](Rng &g) { PC c; int n = 3 + g.i(4), p = 1 + g.i(n - 1); Vector B = symE(n, g), D = rndE(p, 1, g); Problem *I = new StieBrockett(B, D); Stiefel *M = new Stiefel(n, p); if (g.i(2)) M->ChooseParamsSet2(); I->SetDomain(M); Variable *rt = new Variable(M->RandominManifold()); bool mn = g.i(2); SphereTxRQ *S = new SphereTxRQ(M, rt, I, mn); c.P = S; c.M = new SphereTx(M, rt); Vector v = M->GetEMPTY(); randfill(v, g); M->Projection(*rt, v, &v); c.x = v; c.tol = 1e-6;
        if (!M->GetIsIntrinsic()) c.proj = [=](const Vector &d) { Vector q(d); M->Projection(*rt, d, &q); return q; }; c.ref = [=](const Variable &x) { Variable r2(*rt); r2.RemoveAllFromFields(); I->f(r2); Vector gg = M->GetEMPTY(); I->Grad(r2, &gg); Vector h = M->GetEMPTY(); I->HessianEta(r2, x, &h); double v = M->Metric(r2, h, x); return mn ? v : -v; }; return c; });
    return L;
}

void prop_C16() {
    auto L = problems(); int reps = R.thorough ? 60 : 14;
    for (auto &pr : L) for (int k = 0; k < reps; k++) {
        Rng g(R.seed * 7919 + k * 131 + 17); std::string id = pr.first + str("|s%d", R.seed * 1000 + k);
        if (!R.only.empty() && id.compare(0, R.only.size(), R.only)) continue;
        isolated(id, [&]() { genrandseed((unsigned)(k + 3)); PC c = pr.second(g); pcase(c, g, id); });
    }
    // extreme eigenvalues of the Riemannian Hessian
    for (int k = 0; k < (R.thorough ? 24 : 6); k++) {
        Rng g(R.seed * 104729 + k); std::string id = str("MinMaxEigValHess|s%d", R.seed * 1000 + k);
        if (!R.only.empty() && id.compare(0, R.only.size(), R.only)) continue;
        isolated(id, [&]() { genrandseed((unsigned)(k + 11)); int n = 3 + g.i(3), p = 1 + g.i(2); StieBrockett P(symE(n, g), rndE(p, 1, g)); Stiefel M(n, p); if (g.i(2)) M.ChooseParamsSet1(); else M.ChooseParamsSet3(); P.SetDomain(&M); Variable x = M.RandominManifold(); P.f(x); Vector gr = M.GetEMPTY(); P.Grad(x, &gr);
            int d = M.GetIntrDim(); if (!M.GetIsIntrinsic()) return; Mx<double> A(d, d); for (int j = 0; j < d; j++) { Vector e = M.GetEMPTY(); Vd v(d); v[j] = 1; fill(e, v); Vector h = M.GetEMPTY(); P.HessianEta(x, e, &h); Vd hv = data(h); for (int i = 0; i < d; i++) A(i, j) = hv[i]; }
            Mx<double> V; Vd w; jacobi(0.5 * (A + H(A)), V, w); double lo = *std::min_element(w.begin(), w.end()), hi = *std::max_element(w.begin(), w.end());
            Vector mm = P.MinMaxEigValHess(x); Vd m = data(mm); R.le(id + "/min", std::fabs(m[0] - lo), 1e-5 * (1 + std::fabs(lo) + std::fabs(hi))); R.le(id + "/max", std::fabs(m[1] - hi), 1e-5 * (1 + std::fabs(lo) + std::fabs(hi))); });
    }
}
