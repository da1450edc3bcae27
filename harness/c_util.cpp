#include "mani.h"
#include "Others/wavelet/wavelet.h"
#include "Others/Spline.h"
#include "Others/SparseMatrix.h"
#include "Others/MinPNormConHull.h"
#include "Problems/StieSPCA.h"
#include "Problems/FRankESparseApprox.h"
// C18: wavelet, spline and sparse utilities against their definitions
// C20: proximal mapping, generalised Jacobian, tangent space proximal step, minimum norm vector of a convex hull

// ---- Haar transform of a vector: averages first, then details of each level; entries beyond the largest power of two are kept
static void haar_ref(std::vector<cd> &v) {
    int n = (int)v.size(), L = 1; while (2 * L <= n) L *= 2;
    while (L > 1) { std::vector<cd> t(v); int h = L / 2; for (int i = 0; i < h; i++) { t[i] = (v[2 * i] + v[2 * i + 1]) / std::sqrt(2.0); t[h + i] = (v[2 * i] - v[2 * i + 1]) / std::sqrt(2.0); } v = t; L = h; }
}
static std::vector<realdpcomplex> pack(const std::vector<cd> &v) { std::vector<realdpcomplex> r(v.size() + 4); for (size_t i = 0; i < r.size(); i++) { r[i].r = i < v.size() ? v[i].real() : 77; r[i].i = i < v.size() ? v[i].imag() : 78; } return r; }
static double dif(const std::vector<realdpcomplex> &a, const std::vector<cd> &b) { double s = 0; for (size_t i = 0; i < b.size(); i++) s += std::norm(cd(a[i].r, a[i].i) - b[i]); for (size_t i = b.size(); i < a.size(); i++) s += std::fabs(a[i].r - 77) + std::fabs(a[i].i - 78); return std::sqrt(s); }
static double nr(const std::vector<cd> &b) { double s = 0; for (auto &x : b) s += std::norm(x); return std::sqrt(s); }
static std::vector<cd> rnd(int n, Rng &g, int sp) { std::vector<cd> v(n); for (auto &x : v) x = cd(g.n(), g.n()); if (sp == 1 && n) { for (auto &x : v) x = 0; v[g.i(n)] = cd(1.5, -2); } if (sp == 2) for (auto &x : v) x = cd(3, 0.5); return v; }

static void wavelet1(int n, int sp, Rng &g, const std::string &id) {
    auto v = rnd(n, g, sp), w = v; haar_ref(w); auto a = pack(v); haarFWT_1d(n, a.data());
    double sc = 1 + nr(v);
    R.le(id + "/definition", dif(a, w), 1e-12 * sc);
    R.le(id + "/isometric", std::fabs(nr(w) - nr(v)), 1e-12 * sc);
    double s = 0; for (int i = 0; i < n; i++) s += a[i].r * a[i].r + a[i].i * a[i].i;
    R.le(id + "/norm", std::fabs(std::sqrt(s) - nr(v)), 1e-12 * sc);
    haarFWT_1d_inverse(n, a.data()); R.le(id + "/inverse-after-forward", dif(a, v), 1e-12 * sc);
    auto b = pack(v); haarFWT_1d_inverse(n, b.data()); s = 0; for (int i = 0; i < n; i++) s += b[i].r * b[i].r + b[i].i * b[i].i; R.le(id + "/inverse-norm", std::fabs(std::sqrt(s) - nr(v)), 1e-12 * sc);
    haarFWT_1d(n, b.data()); R.le(id + "/forward-after-inverse", dif(b, v), 1e-12 * sc);
}
static void wavelet2(int n1, int n2, int sp, Rng &g, const std::string &id) {
    auto v = rnd(n1 * n2, g, sp), w = v;
    for (int j = 0; j < n2; j++) { std::vector<cd> c(w.begin() + j * n1, w.begin() + (j + 1) * n1); haar_ref(c); std::copy(c.begin(), c.end(), w.begin() + j * n1); }
    for (int i = 0; i < n1; i++) { std::vector<cd> c(n2); for (int j = 0; j < n2; j++) c[j] = w[i + j * n1]; haar_ref(c); for (int j = 0; j < n2; j++) w[i + j * n1] = c[j]; }
    double sc = 1 + nr(v); auto a = pack(v); haarFWT_2d(n1, n2, a.data()); R.le(id + "/definition", dif(a, w), 1e-12 * sc);
    haarFWT_2d_inverse(n1, n2, a.data()); R.le(id + "/inverse-after-forward", dif(a, v), 1e-12 * sc);
    auto b = pack(v); haarFWT_2d_inverse(n1, n2, b.data()); double s = 0; for (int i = 0; i < n1 * n2; i++) s += b[i].r * b[i].r + b[i].i * b[i].i; R.le(id + "/inverse-norm", std::fabs(std::sqrt(s) - nr(v)), 1e-12 * sc);
    haarFWT_2d(n1, n2, b.data()); R.le(id + "/forward-after-inverse", dif(b, v), 1e-12 * sc);
    // the same through the element interface
    Element e(n1, n2, "complex"); realdpcomplex *q = (realdpcomplex *)e.ObtainWriteEntireData(); for (int i = 0; i < n1 * n2; i++) { q[i].r = v[i].real(); q[i].i = v[i].imag(); }
    auto err = [&](const Element &x, const std::vector<cd> &r) { const realdpcomplex *p = (const realdpcomplex *)x.ObtainReadData(); double t = 0; for (int i = 0; i < n1 * n2; i++) t += std::norm(cd(p[i].r, p[i].i) - r[i]); return std::sqrt(t); };
    Element f = e.GetHaarFWT(); R.le(id + "/element definition", err(f, w), 1e-12 * sc); R.le(id + "/element unchanged", err(e, v), 0);
    Element h = f.GetInvHaarFWT(); R.le(id + "/element inverse", err(h, v), 1e-12 * sc); R.le(id + "/element kept", err(f, w), 1e-12 * sc);
    Element k = e.GetInvHaarFWT().GetHaarFWT(); R.le(id + "/element forward-after-inverse", err(k, v), 1e-12 * sc);
}

// ---- splines
struct Pc { const Vd &c; const Vd &X; int nn; double s0(int i, double t) const { double u = t - X[i]; return ((c[i] * u + c[nn + i]) * u + c[2 * nn + i]) * u + c[3 * nn + i]; }
    double s1(int i, double t) const { double u = t - X[i]; return (3 * c[i] * u + 2 * c[nn + i]) * u + c[2 * nn + i]; } double s2(int i, double t) const { double u = t - X[i]; return 6 * c[i] * u + 2 * c[nn + i]; } };
static void spline(int n, bool uni, bool per, double x0, double h, Rng &g, const std::string &id) {
    int nn = n - 1; Vd X(n), Y(n); X[0] = x0; for (int i = 1; i < n; i++) X[i] = uni ? x0 + i * h : X[i - 1] + h * (0.3 + 1.4 * g.u()); for (auto &y : Y) y = g.n(); if (per) Y[nn] = Y[0];
    Vd X0 = X, Y0 = Y, c(4 * nn + 3, 55.0); int rc;
    if (uni) rc = per ? Spline::SplineUniformPeriodic(Y.data(), n, h, c.data()) : Spline::SplineUniformSlopes(Y.data(), n, h, c.data());
    else rc = per ? Spline::SplinePeriodic(X.data(), Y.data(), n, c.data()) : Spline::SplineSlopes(X.data(), Y.data(), n, c.data());
    R.ok(id + "/returns", rc == 1); R.ok(id + "/inputs", X == X0 && Y == Y0 && c[4 * nn] == 55 && c[4 * nn + 1] == 55);
    Pc P{c, X, nn}; double S = 0; for (int i = 0; i < nn; i++) S = std::max(S, std::fabs(c[nn + i])); double hm = 1e300; for (int i = 0; i < nn; i++) hm = std::min(hm, X[i + 1] - X[i]); S = S + 4 / hm / hm; double t2 = 1e-11 * S, t1 = t2 * std::max(1.0, h), t0 = 1e-11 * (4 + S * h * h);
    double k = 0, c0 = 0, c1 = 0, c2 = 0;
    for (int i = 0; i < nn; i++) { k = std::max(k, std::fabs(P.s0(i, X[i]) - Y[i])); c0 = std::max(c0, std::fabs(P.s0(i, X[i + 1]) - Y[i + 1])); if (i + 1 < nn) { c1 = std::max(c1, std::fabs(P.s1(i, X[i + 1]) - P.s1(i + 1, X[i + 1]))); c2 = std::max(c2, std::fabs(P.s2(i, X[i + 1]) - P.s2(i + 1, X[i + 1]))); } }
    R.le(id + "/knots", k, t0); R.le(id + "/knots-from-left", c0, t0); R.le(id + "/slope-continuous", c1, t1); R.le(id + "/curvature-continuous", c2, t2);
    if (per) { R.le(id + "/periodic-slope", std::fabs(P.s1(nn - 1, X[nn]) - P.s1(0, X[0])), t1); R.le(id + "/periodic-curvature", std::fabs(P.s2(nn - 1, X[nn]) - P.s2(0, X[0])), t2); }
    else { R.le(id + "/start-slope", std::fabs(P.s1(0, X[0]) - (Y[1] - Y[0]) / (X[1] - X[0])), t1); R.le(id + "/end-slope", std::fabs(P.s1(nn - 1, X[nn]) - (Y[nn] - Y[nn - 1]) / (X[nn] - X[nn - 1])), t1); }
    Vd d1(3 * nn + 2, 66.0), d2(2 * nn + 2, 67.0); Spline::FirstDeri(c.data(), n, d1.data()); Spline::SecondDeri(c.data(), n, d2.data()); R.ok(id + "/derivative-extent", d1[3 * nn] == 66 && d2[2 * nn] == 67);
    std::vector<double> ts; for (int i = 0; i < n; i++) { ts.push_back(X[i]); if (i < nn) for (int q = 0; q < 3; q++) ts.push_back(X[i] + (X[i + 1] - X[i]) * (0.02 + 0.96 * g.u())); } ts.push_back(X[0] - 0.3 * h); ts.push_back(X[nn] + 0.4 * h);
    for (double t : ts) { int i = 0; while (i + 1 < nn && X[i + 1] <= t) i++;
        double v = P.s0(i, t), a = P.s1(i, t), b = P.s2(i, t);
        R.le(id + "/ValSpline", std::fabs(Spline::ValSpline(c.data(), X.data(), n, t) - v), t0, str("t=%g", t)); R.le(id + "/ValFirstDeri", std::fabs(Spline::ValFirstDeri(d1.data(), X.data(), n, t) - a), t1); R.le(id + "/ValSecondDeri", std::fabs(Spline::ValSecondDeri(d2.data(), X.data(), n, t) - b), t2);
        if (uni && x0 == 0) { R.le(id + "/ValSplineUniform", std::fabs(Spline::ValSplineUniform(c.data(), n, h, t) - v), t0, str("t=%g", t)); R.le(id + "/ValFirstDeriUniform", std::fabs(Spline::ValFirstDeriUniform(d1.data(), n, h, t) - a), t1); R.le(id + "/ValSecondDeriUniform", std::fabs(Spline::ValSecondDeriUniform(d2.data(), n, h, t) - b), t2); } }
}

// ---- sparse products
template <class T> static void sparse(int m, int n, int q, int nz, bool dup, Rng &g, const std::string &id) {
    Mx<T> D(m, n); std::vector<integer> ir, jc; std::vector<T> vs; std::set<std::pair<int, int>> used;
    for (int k = 0; k < nz; k++) { int i = g.i(m), j = g.i(n); if (!dup && !used.insert({i, j}).second) continue; T v; if constexpr (std::is_same<T, cd>::value) v = cd(g.n(), g.n()); else v = g.n(); ir.push_back(i); jc.push_back(j); vs.push_back(v); D(i, j) = D(i, j) + v; }
    std::vector<T> v0 = vs; auto ir0 = ir, jc0 = jc; integer N = (integer)vs.size(); T z; ir.push_back(0); jc.push_back(0); vs.push_back(z = T());
    SparseMatrix *S; if constexpr (std::is_same<T, cd>::value) S = new SparseMatrix(m, n, ir.data(), jc.data(), (realdpcomplex *)vs.data(), N); else S = new SparseMatrix(m, n, ir.data(), jc.data(), vs.data(), N);
    R.ok(id + "/shape", S->Getrow() == m && S->Getcol() == n && S->Getiscomplex() == std::is_same<T, cd>::value);
    const char *cx = "complex"; bool c = std::is_same<T, cd>::value;
    auto mk = [&](int r, int k) { return c ? Element(r, k, cx) : Element(r, k); };
    Element E = mk(n, q), F = mk(q, m); randfill(E, g); randfill(F, g); Vd e0 = data(E), f0 = data(F);
    Element P = *S * E; Mx<T> W = D * mx<T>(E); R.ok(id + "/left-shape", P.Getrow() == m && P.Getcol() == q); R.le(id + "/left", P.Getrow() == m ? fro(mx<T>(P) - W) : 1, 1e-12 * (1 + fro(W)));
    Element Q = F * *S; Mx<T> V = mx<T>(F) * D; R.ok(id + "/right-shape", Q.Getrow() == q && Q.Getcol() == n); R.le(id + "/right", Q.Getcol() == n ? fro(mx<T>(Q) - V) : 1, 1e-12 * (1 + fro(V)));
    R.ok(id + "/operands", data(E) == e0 && data(F) == f0); Element P2 = *S * E; R.le(id + "/again", dist(data(P2), data(P)), 0);
    delete S;
}
void prop_C18() {
    auto run = [&](const std::string &id, const std::function<void(Rng &)> &f, int k) { if (!R.only.empty() && id.compare(0, R.only.size(), R.only)) return; isolated(id, [&]() { Rng g(R.seed * 977 + k * 13 + 3); f(g); }); };
    int T = R.thorough ? 70 : 40, k = 0;
    for (int n = 1; n <= T; n++) for (int sp = 0; sp < 3; sp++) { std::string id = str("haar1d(%d)|s%d", n, R.seed * 10 + sp); run(id, [&](Rng &g) { wavelet1(n, sp, g, id); }, ++k); }
    int T2 = R.thorough ? 18 : 9; for (int a = 1; a <= T2; a++) for (int b = 1; b <= T2; b++) { int sp = (a * 5 + b) % 3; std::string id = str("haar2d(%d,%d)|s%d", a, b, R.seed * 10 + sp); run(id, [&](Rng &g) { wavelet2(a, b, sp, g, id); }, ++k); }
    for (int n = 3; n <= (R.thorough ? 60 : 24); n++) for (int uni = 0; uni < 2; uni++) for (int per = 0; per < 2; per++) for (int st = 0; st < 3; st++) { if (per && n < 4) continue;
        double x0 = st == 0 ? 0 : st == 1 ? 1.7 : -2.3, h = st == 0 ? 1.0 / (n - 1) : st == 1 ? 0.8 : 2.5; std::string id = str("spline(n=%d%s%s%s)|s%d", n, uni ? ",uniform" : "", per ? ",periodic" : ",slopes", x0 ? ",shifted" : "", R.seed * 10 + st); run(id, [&](Rng &g) { spline(n, uni, per, x0, h, g, id); }, ++k); }
    for (int c = 0; c < 2; c++) for (int q = 0; q < (R.thorough ? 400 : 120); q++) { Rng s(R.seed * 31 + q); int m = 1 + s.i(7), n = 1 + s.i(7), w = 1 + s.i(5), nz = s.i(m * n + 4); bool dup = q % 3 == 0; std::string id = str("sparse(%s%dx%d,nz%d%s)|s%d", c ? "complex," : "", m, n, nz, dup ? ",duplicates" : "", R.seed * 1000 + q);
        run(id, [&](Rng &g) { if (c) sparse<cd>(m, n, w, nz, dup, g, id); else sparse<double>(m, n, w, nz, dup, g, id); }, ++k); }
}

// ---------------- C20
static void prox(Problem *P, Vector proto, double lam, int nblock, int sp, Rng &g, const std::string &id) {
    Vector x = proto, W(nblock), eta = proto; randfill(x, g, 1.5); randfill(eta, g); { double *w = W.ObtainWriteEntireData(); for (int i = 0; i < nblock; i++) w[i] = 0.1 + 3 * g.u(); }
    int N = x.Getlength(), bs = N / nblock; Vd wd = data(W);
    if (sp) { double *p = x.ObtainWriteEntireData(); for (int i = 0; i < N; i++) { int k = g.i(5); double t = lam / wd[i / bs]; if (k == 0) p[i] = 0; if (k == 1) p[i] = t * (1 + 1e-7); if (k == 2) p[i] = -t * (1 - 1e-7); if (k == 3) p[i] *= 1e3; } }
    Vd xd = data(x), ed = data(eta); Vector r = proto, j = proto, keep = r; randfill(r, g); P->ProxW(x, W, &r); P->CalJW(x, eta, W, &j);
    R.ok(id + "/inputs", data(x) == xd && data(eta) == ed && data(W) == wd);
    Vd rd = data(r), jd = data(j); double opt = 0, jac = 0, def = 0; int bad = -1;
    for (int i = 0; i < N; i++) { double t = lam / wd[i / bs], e = wd[i / bs] * (xd[i] - rd[i]); // optimality: e in lam * subdifferential of |.| at rd
        double v = rd[i] > 0 ? std::fabs(e - lam) : rd[i] < 0 ? std::fabs(e + lam) : std::max(0.0, std::fabs(e) - lam); v /= 1 + std::fabs(xd[i]) * wd[i / bs]; if (!(v <= opt)) { opt = v; bad = i; }
        double s = std::fabs(xd[i]) > t ? xd[i] - (xd[i] > 0 ? t : -t) : 0; def = std::max(def, std::fabs(rd[i] - s) / (1 + std::fabs(xd[i])));
        double J = std::fabs(xd[i]) > t ? ed[i] : 0; if (std::fabs(std::fabs(xd[i]) - t) > 1e-12) jac = std::max(jac, std::fabs(jd[i] - J)); }
    R.le(id + "/optimality", opt, 1e-12, str("entry %d", bad)); R.le(id + "/soft-threshold", def, 1e-12); R.le(id + "/jacobian", jac, 1e-14);
    // derivative along eta where it is differentiable
    Vector xp = x, xm = x; double hh = 1e-9; fill(xp, comb(1, xd, hh, ed)); fill(xm, comb(1, xd, -hh, ed)); Vector rp = proto, rm = proto; P->ProxW(xp, W, &rp); P->ProxW(xm, W, &rm); Vd a = data(rp), b = data(rm); double fd = 0; for (int i = 0; i < N; i++) if (std::fabs(std::fabs(xd[i]) - lam / wd[i / bs]) > 1e-8 && std::fabs(xd[i]) < 100) fd = std::max(fd, std::fabs((a[i] - b[i]) / (2 * hh) - jd[i])); R.le(id + "/jacobian-fd", fd, 1e-5);
}
static void tsprox(StieSPCA *P, Stiefel *M, double lam, double ada, Rng &g, const std::string &id) {
    M->SetIsIntrApproach(false); P->SetDomain(M); genrandseed((unsigned)(g.next() % 1000000)); Variable x = M->RandominManifold(); P->f(x); Vector gf = M->GetEMPTYEXTR(); P->RieGrad(x, &gf);
    Vector W; P->PreConditioner(x, W, &W); W.ScalarTimesThis(ada); Vd w = data(W); int N = x.Getlength(), bs = N / (int)w.size();
    Vector init, d = M->GetEMPTYEXTR(); integer it = 0, cg = 0; M->TangentSpaceProximalMap(x, gf, ada, 1e-24, 0.2, P, &init, &it, &cg, &d);
    Vd dd = data(d), xd = data(x), gd = data(gf); Vector pd = M->GetEMPTYEXTR(); M->ExtrProjection(x, d, &pd); R.le(id + "/tangent", dist(data(pd), dd), 1e-8 * (1 + nrm(dd)));
    auto obj = [&](const Vd &v) { double s = 0; for (int i = 0; i < N; i++) s += gd[i] * v[i] + 0.5 * w[i / bs] * v[i] * v[i] + lam * std::fabs(xd[i] + v[i]); return s; };
    double o = obj(dd), worst = 0; for (int k = 0; k < 60; k++) { Vector q = M->GetEMPTYEXTR(); randfill(q, g); M->ExtrProjection(x, q, &q); Vd qd = data(q); double sc = std::pow(10.0, -k % 6) / nrm(qd); for (int s = -1; s <= 1; s += 2) worst = std::max(worst, (o - obj(comb(1, dd, s * sc, qd))) / sc); } R.le(id + "/optimal", worst, 2e-5, "objective decreases along a tangent direction");
    R.le(id + "/descent", o - obj(Vd(N, 0.0)), 1e-9);
}
static void hull(int m, int L, int sp, Rng &g, const std::string &id) {
    std::vector<Vector> Y; Vd sh(m); for (auto &s : sh) s = (sp == 1 ? 3 : sp == 2 ? 0.3 : 0.8) * g.n(); for (int i = 0; i < L; i++) { Vector v(m); randfill(v, g); fill(v, comb(1, data(v), 1, sh)); Y.push_back(v); } if (sp == 3 && L > 1) Y[1] = Y[0];
    std::vector<Vd> yd; for (auto &v : Y) yd.push_back(data(v)); Euclidean E(m); Variable x(m); randfill(x, g); genrandseed((unsigned)(g.next() % 1000000)); Vector out(m); double f = MinPNormConHull(&E, x, Y.data(), L, out); Vd o = data(out); double nn = dotv(o, o), sc = 0; for (auto &v : yd) sc = std::max(sc, nrm(v));
    for (int i = 0; i < L; i++) R.ok(id + "/inputs", data(Y[i]) == yd[i]);
    R.le(id + "/value", std::fabs(f - nn), 1e-9 * (1 + nn)); double gap = 0; for (auto &v : yd) gap = std::max(gap, nn - dotv(o, v)); R.le(id + "/optimal", gap, 1e-4 * sc * sc, "the vector is not of minimum norm");
    // membership of the hull: nearest point of the hull by many Frank-Wolfe (away) steps
    Vd w(L, 1.0 / L); Vd p(m, 0.0); for (int i = 0; i < L; i++) p = comb(1, p, w[i], yd[i]); double best = 1e300; for (int t = 0; t < 100000 && best > 2e-5 * sc; t++) { Vd r = comb(1, p, -1, o); best = std::min(best, nrm(r)); int a = 0, b = -1; for (int i = 0; i < L; i++) { if (dotv(r, yd[i]) < dotv(r, yd[a])) a = i; if (w[i] > 0 && (b < 0 || dotv(r, yd[i]) > dotv(r, yd[b]))) b = i; } Vd dl = comb(1, yd[a], -1, yd[b]); double q = dotv(dl, dl); if (q < 1e-300) break; double st = std::min(w[b], -dotv(r, dl) / q); if (st <= 0) break; w[a] += st; w[b] -= st; p = comb(1, p, st, dl); }
    best = std::min(best, nrm(comb(1, p, -1, o))); R.le(id + "/in-hull", best, 1e-4 * sc);
}
void prop_C20() {
    auto run = [&](const std::string &id, const std::function<void(Rng &)> &f, int k) { if (!R.only.empty() && id.compare(0, R.only.size(), R.only)) return; isolated(id, [&]() { Rng g(R.seed * 977 + k * 13 + 3); f(g); }); };
    int k = 0, T = R.thorough ? 4 : 1;
    for (int t = 0; t < 60 * T; t++) { Rng s(R.seed * 71 + t); int n = 3 + s.i(6), p = 1 + s.i(3), m = 2 + s.i(5); double lam = t % 7 == 0 ? 0 : 0.1 + 2 * s.u(); int wk = t % 3; int lw = wk == 0 ? 1 : wk == 1 ? p : n * p; std::string id = str("StieSPCA(n=%d,p=%d,W=%d,lambda=%.3g)|s%d", n, p, lw, lam, R.seed * 1000 + t);
        run(id, [&](Rng &g) { Vector B(m, n); randfill(B, g); StieSPCA P(B, lam, n, m, p, lw); prox(&P, Vector(n, p), lam, lw, t % 2, g, id); }, ++k);
        std::string id2 = str("FRankESparseApprox(%dx%d,W=%d,lambda=%.3g)|s%d", n, m, lw, lam, R.seed * 1000 + t);
        run(id2, [&](Rng &g) { Vector A(n, p); randfill(A, g); FRankESparseApprox P(A, lam, n, p, 1, lw); prox(&P, Vector(n, p), lam, lw, t % 2, g, id2); }, ++k); }
    for (int t = 0; t < 40 * T; t++) { Rng s(R.seed * 91 + t); int p = 1 + s.i(3), n = p + 2 + s.i(6), m = 2 + s.i(5); double lam = 0.05 + 0.8 * s.u(); int lw = t % 2 ? 1 : 1; double ada = 0.5 + 2 * s.u(); std::string id = str("TangentProx(n=%d,p=%d,lambda=%.3g)|s%d", n, p, lam, R.seed * 1000 + t);
        run(id, [&](Rng &g) { Vector B(m, n); randfill(B, g); StieSPCA P(B, lam, n, m, p, lw); Stiefel M(n, p); tsprox(&P, &M, lam, ada, g, id); }, ++k); }
    for (int t = 0; t < 80 * T; t++) { Rng s(R.seed * 51 + t); int m = 2 + s.i(8), L = 2 + s.i(7); std::string id = str("hull(dim=%d,vectors=%d)|s%d", m, L, R.seed * 1000 + t); run(id, [&](Rng &g) { hull(m, L, t % 4, g, id); }, ++k); }
}
