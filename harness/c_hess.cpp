#include "mani.h"
#include "iter.h"
// C07: conversion of the Euclidean Hessian action; cost functions with exactly known derivatives
template <class T> static Mx<T> rndM(int r, int c, Rng &g);
template <> Mx<double> rndM<double>(int r, int c, Rng &g) { Mx<double> A(r, c); for (auto &v : A.a) v = g.n(); return A; }
template <> Mx<cd> rndM<cd>(int r, int c, Rng &g) { Mx<cd> A(r, c); for (auto &v : A.a) v = cd(g.n(), g.n()); return A; }
template <class T> static Mx<T> symm(const Mx<T> &A) { return 0.5 * (A + H(A)); }

struct Cost : Problem {
    int kind;   // 0 dense quadratic, 1 function of Y Y^H, 2 function of G H^H
    bool cx; Mx<double> K; Vd b; Mx<double> A, B, Cc; Mx<cd> Ac, Bc, Ccc;
    virtual realdp f(const Variable &x) const { return 0; }
    template <class T> void setup1(int n, Rng &g, Mx<T> &A_, Mx<T> &B_) { A_ = symm(rndM<T>(n, n, g)); B_ = symm(rndM<T>(n, n, g)); }
    Cost(const MC &c, Manifold *M, const Variable &x, Rng &g) {
        SetUseGrad(true); SetUseHess(true); SetNumGradHess(false);
        cx = M->GetEMPTYEXTR().Getiscomplex();
        if (c.name.find("FixedRankQ2F") != std::string::npos) { kind = 2; cx = x.GetElement(0).Getiscomplex(); int m = x.GetElement(0).Getrow(), n = x.GetElement(1).Getrow();
            if (cx) { Ac = rndM<cd>(m, m, g); Ccc = rndM<cd>(n, n, g); Bc = rndM<cd>(m, n, g); } else { A = rndM<double>(m, m, g); Cc = rndM<double>(n, n, g); B = rndM<double>(m, n, g); } }
        else if (c.name.find("SymFixedRankQ") != std::string::npos || c.name.find("Grassmann") == 0) { kind = 1; if (cx) setup1(x.Getrow(), g, Ac, Bc); else setup1(x.Getrow(), g, A, B); }
        else if (c.name.find("SPD") == 0) { kind = 3; setup1(x.Getrow(), g, A, B); }
        else { kind = 0; int N = x.Getlength(); K = symm(rndM<double>(N, N, g)); for (int i = 0; i < N; i++) b.push_back(g.n()); }
    }
    Vd mul(const Vd &v) const { Vd r(v.size()); for (size_t j = 0; j < v.size(); j++) for (size_t i = 0; i < v.size(); i++) r[i] += K(i, j) * v[j]; return r; }
    template <class T> void S1(const Variable &x, const Vector *e, Vector *r, const Mx<T> &A_, const Mx<T> &B_) const {
        Mx<T> Y = mx<T>(x), F = A_ * Y * H(Y) * A_ + B_;
        if (!e) setmx(*r, 2.0 * (F * Y));
        else { Mx<T> E = mx<T>(*e), DF = A_ * (E * H(Y) + Y * H(E)) * A_; setmx(*r, 2.0 * (DF * Y + F * E)); } }
    template <class T> void S2(const Variable &x, const Vector *e, Vector *r, const Mx<T> &A_, const Mx<T> &B_, const Mx<T> &C_) const {
        Mx<T> G = mx<T>(x.GetElement(0)), Hh = mx<T>(x.GetElement(1)), F = H(A_) * (A_ * G * H(Hh) * C_ - B_) * H(C_), a, b_;
        if (!e) { a = F * Hh; b_ = H(F) * G; }
        else { Mx<T> dG = mx<T>(e->GetElement(0)), dH = mx<T>(e->GetElement(1)), DF = H(A_) * (A_ * (dG * H(Hh) + G * H(dH)) * C_) * H(C_); a = DF * Hh + F * dH; b_ = H(DF) * G + H(F) * dG; }
        r->NewMemoryOnWrite(); setmx(r->GetElement(0), a); setmx(r->GetElement(1), b_); }
    virtual Vector &EucGrad(const Variable &x, Vector *r) const {
        if (kind == 0) { Vd v = mul(data(x)); for (size_t i = 0; i < v.size(); i++) v[i] += b[i]; fill(*r, v); }
        else if (kind == 1) { if (cx) S1<cd>(x, nullptr, r, Ac, Bc); else S1<double>(x, nullptr, r, A, B); }
        else if (kind == 2) { if (cx) S2<cd>(x, nullptr, r, Ac, Bc, Ccc); else S2<double>(x, nullptr, r, A, B, Cc); }
        else { Mx<double> X = mx<double>(x); setmx(*r, A * X * A + B); }
        return *r; }
    virtual Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *r) const {
        Vector in = e;
        if (kind == 0) fill(*r, mul(data(in)));
        else if (kind == 1) { if (cx) S1<cd>(x, &in, r, Ac, Bc); else S1<double>(x, &in, r, A, B); }
        else if (kind == 2) { if (cx) S2<cd>(x, &in, r, Ac, Bc, Ccc); else S2<double>(x, &in, r, A, B, Cc); }
        else { Mx<double> E = mx<double>(in); setmx(*r, A * E * A); }
        return *r; }
};
// acceleration of the geodesic (or of the documented second-order curve) with velocity e at x; false when given by the embedded lift
template <class T> static bool accel(const MC &c, Manifold *M, const Variable &x, const Vector &e, Mx<T> &a) {
    Mx<T> X = mx<T>(x), E = mx<T>(e);
    if (c.name.find("Euclidean") == 0) { a = 0.0 * E; return true; }
    if (c.name.find("SphereTx") == 0) { a = -M->Metric(x, e, e) * X; return true; }
    if (c.name.find("Stiefel") != std::string::npos || c.name.find("Sphere") == 0 || c.name.find("Grassmann") == 0) {
        if (c.name.find("canonical") != std::string::npos) { Mx<T> W = H(X) * E; a = -1.0 * (E * H(E) * X) - X * (W * W + H(E) * E); }
        else a = -1.0 * (X * (H(E) * E));
        return true; }
    if (c.name.find("SPD") == 0) { if (((SPDManifold *)M)->metric == SPDAFFINEINVARIANCE) a = E * solve(X, E); else a = 0.0 * E; return true; }
    if (c.name.find("SymFixedRankQ") != std::string::npos) {
        int k = atoi(c.name.c_str() + c.name.find('#') + 1), per = c.name[0] == 'C' ? 2 : 3; k = (k - 1) % per;
        if (k == 1) { Mx<T> G = H(X) * X; a = (X * H(E) * E - E * (H(E) * X + H(X) * E)) * inv(G); return true; }
        if (k == 2) { a = 0.0 * E; return true; }
        return false; }
    return false;
}
template <class T> static Mx<T> orthP(const Mx<T> &Y) { return Y * solve(H(Y) * Y, H(Y)); }

template <class T> static void hcase(MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
    Cost P(c, M, x, g); P.SetDomain(M);
    double xs = 1 + nrm(data(x)); xs = xs * xs * xs;
    if (c.small || c.name.find("FixedRank") != std::string::npos) xs *= 20;
    Vd x0 = data(x);
    Vector gr = M->GetEMPTY(); P.Grad(x, &gr);
    Vector e1 = randTan(M, x, g, 1), e2 = randTan(M, x, g, 1);
    Vd e10 = data(e1);
    Vector h1 = M->GetEMPTY(), h2 = h1; P.HessianEta(x, e1, &h1); P.HessianEta(x, e2, &h2);
    R.le(id + "/vector unchanged", dist(data(e1), e10), 0);
    R.le(id + "/point unchanged", dist(data(x), x0), 0);
    Vector x1 = toEx(M, x, e1), hx = toEx(M, x, h1);
    R.le(id + "/tangent", c.tanErr(x, hx), 1e-8 * (1 + nrm(data(hx))) * xs);
    double m12 = M->Metric(x, h1, e2), m21 = M->Metric(x, h2, e1), sc = (1 + nrm(data(h1)) + nrm(data(h2)));
    R.le(id + "/self-adjoint", std::fabs(m12 - m21), 1e-8 * sc * xs);
    Vector cmb = e1, hc = M->GetEMPTY(); M->VectorLinearCombination(x, 0.6, e1, -1.4, e2, &cmb); P.HessianEta(x, cmb, &hc);
    R.le(id + "/linear", dist(data(hc), comb(0.6, data(h1), -1.4, data(h2))), 1e-8 * sc * xs);
    // again after other uses of the point: order independence
    Vector h3 = M->GetEMPTY(); P.HessianEta(x, e1, &h3); R.le(id + "/repeatable", dist(data(h1), data(h3)), 1e-10 * sc * xs);
    Vector eg = M->GetEMPTYEXTR(), eh = M->GetEMPTYEXTR(); P.EucGrad(x, &eg); P.EucHessianEta(x, x1, &eh);
    Mx<T> a;
    bool lift2 = c.name.find("FixedRankQ2F") != std::string::npos, fre = c.name.find("FixedRankE") == 0;
    if (!lift2 && !fre && accel<T>(c, M, x, x1, a)) {
        Vector av = M->GetEMPTYEXTR(); setmx(av, a);
        double want = dotv(data(eh), data(x1)) + dotv(data(eg), data(av)), got = M->Metric(x, h1, e1);
        R.le(id + "/second derivative along the geodesic", std::fabs(want - got), 1e-8 * (std::fabs(want) + sc) * xs);
    } else {
        // derivative of the ambient gradient field along a curve, projected onto the tangent space (Levi-Civita of the induced metric)
        double t = 1e-5;
        auto field = [&](double s) -> Mx<T> {
            Variable y = x; Vector se = scaled(M, x, s, e1); M->Retraction(x, se, &y); y.RemoveAllFromFields();
            if (fre) { y = x; M->Retraction(x, se, &y); }
            if (lift2) { y = x; M->Retraction(x, se, &y); }
            Vector gy = M->GetEMPTY(); P.Grad(y, &gy); Vector gx = toEx(M, y, gy);
            if (fre) return mx<T>(gx);
            if (lift2) { Mx<T> G = mx<T>(y.GetElement(0)), Hh = mx<T>(y.GetElement(1)); return mx<T>(gx.GetElement(0)) * H(Hh) + G * H(mx<T>(gx.GetElement(1))); }
            Mx<T> Y = mx<T>(y), G = mx<T>(gx); return Y * H(G) + G * H(Y); };
        Mx<T> D = (0.5 / t) * (field(t) - field(-t)), got, Pl, Pr;
        if (fre) { got = mx<T>(hx); Pl = orthP(mx<T>(x.Field("U"))); Pr = orthP(mx<T>(x.Field("V"))); }
        else if (lift2) { Mx<T> G = mx<T>(x.GetElement(0)), Hh = mx<T>(x.GetElement(1)); Pl = orthP(G); Pr = orthP(Hh); got = mx<T>(hx.GetElement(0)) * H(Hh) + G * H(mx<T>(hx.GetElement(1))); }
        else { Mx<T> Y = mx<T>(x), h = mx<T>(hx); Pl = Pr = orthP(Y); got = Y * H(h) + h * H(Y); }
        Mx<T> want = D - (eyeM<T>(Pl.r) - Pl) * D * (eyeM<T>(Pr.r) - Pr);
        R.le(id + "/covariant derivative of the gradient", fro(want - got), 2e-6 * (1 + fro(want)) * xs);
    }
}
void prop_C07() {
    each([](MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
        if (c.name[0] == 'P') return;       // products: C11
        bool cx = M->GetEMPTYEXTR().Getiscomplex() || (c.name.find("Q2F") != std::string::npos && x.GetElement(0).Getiscomplex());
        if (cx) hcase<cd>(c, M, x, g, id); else hcase<double>(c, M, x, g, id);
    });
}
