// C01 (value semantics), C02 (attached data), C03 (matrix operations): bounded checks of Element against plain dense arithmetic.
#include "h.h"
#include "Others/SparseMatrix.h"
template <class T> static Mx<T> rnd(Rng &g, int r, int c) { Mx<T> M(r, c); for (auto &x : M.a) { if constexpr (std::is_same<T, cd>::value) x = cd(g.n(), g.n()); else x = g.n(); } return M; }
template <class T> static const char *ty() { return std::is_same<T, cd>::value ? "complex" : "real"; }
template <class T> static Element el(const Mx<T> &M) { Element e(M.r, M.c, ty<T>()); setmx(e, M); return e; }
template <class T> static double rel(const Mx<T> &A, const Mx<T> &B) { if (A.r != B.r || A.c != B.c) return INFINITY; return fro(A - B) / (1 + fro(B)); }
template <class T> static Mx<T> tr(const Mx<T> &A) { Mx<T> C(A.c, A.r); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) C(j, i) = A(i, j); return C; }
template <class T> static T sc(Rng &g) { if constexpr (std::is_same<T, cd>::value) return cd(g.n(), g.n()); else return g.n(); }
static realdpcomplex rc(cd a) { realdpcomplex z; z.r = a.real(); z.i = a.imag(); return z; }
template <class T> static Mx<T> smul(T s, Mx<T> A) { for (auto &x : A.a) x *= s; return A; }
template <class T> static bool finM(const Mx<T> &A) { for (auto &x : A.a) if (!std::isfinite(std::abs(x))) return false; return true; }

// watch: operands must keep their entries, and so must copies made before the call
struct Watch {
    std::string id; std::vector<const Element *> p; std::vector<Vd> v; std::vector<std::pair<int, int>> s;
    Watch(const std::string &i, std::vector<const Element *> q) : id(i), p(q) { for (auto e : p) { v.push_back(data(*e)); s.push_back({e->Getrow(), e->Getcol()}); } }
    ~Watch() { for (size_t i = 0; i < p.size(); i++) { R.le(id + "/operand " + std::to_string(i), dist(data(*p[i]), v[i]), 0); R.ok(id + "/operand shape", p[i]->Getrow() == s[i].first && p[i]->Getcol() == s[i].second); } }
};
template <class T> static void same(const std::string &id, const Element &e, const Mx<T> &M, double tol = 1e-11) {
    bool c = std::is_same<T, cd>::value;
    if (!R.ok(id + "/kind", e.Getiscomplex() == c) || !R.ok(id + "/shape", e.Getrow() == M.r && e.Getcol() * e.Getnum() == M.c, str("%dx%d expected %dx%d", (int)e.Getrow(), (int)e.Getcol(), M.r, M.c))) return;
    R.le(id, rel(mx<T>(e), M), tol);
}
#define W(...) Watch w_(id, {__VA_ARGS__})

template <class T> static void ops(Rng &g, int rep) {
    const bool C = std::is_same<T, cd>::value; const std::string pre = std::string("C03/") + ty<T>() + "/";
    int m = 1 + g.i(5), n = 1 + g.i(5), k = 1 + g.i(5); std::string sfx = str("|%dx%dx%d#%d", m, n, k, rep), id;
    char *TR = C ? GLOBAL::C : GLOBAL::T;
    Mx<T> A = rnd<T>(g, m, n), B = rnd<T>(g, m, n), D = rnd<T>(g, n, k); T s = sc<T>(g), t = sc<T>(g); double rs = g.n(), rt = g.n();
    Element a = el(A), b = el(B), d = el(D); Element acopy(a), bcopy(b), dcopy(d);
    auto S = [&](const char *nm) { id = pre + nm + sfx; };
    { S("plus"); W(&a, &b, &acopy); same<T>(id, a + b, A + B); }
    { S("minus"); W(&a, &b, &acopy); same<T>(id, a - b, A - B); }
    { S("plusassign"); W(&a, &b); Element z(a); z += b; same<T>(id, z, A + B); z -= b; same<T>(id + "-", z, A); }
    { S("times"); W(&a, &d); same<T>(id, a * d, A * D); }
    { S("real scalar"); W(&a); same<T>(id, rs * a, rs * A); same<T>(id + " right", a * rs, rs * A); same<T>(id + " div", a / (rs + 3), (1 / (rs + 3)) * A); }
    Mx<T> one(m, n); for (auto &x : one.a) x = 1;
    if constexpr (std::is_same<T, cd>::value) {
        realdpcomplex z = rc(s);
        { S("scalar"); W(&a); same<T>(id, z * a, smul(s, A)); same<T>(id + " right", a * z, smul(s, A)); same<T>(id + " div", a / z, smul(1.0 / s, A)); same<T>(id + " plus", a + z, A + smul(s, one)); same<T>(id + " plus left", z + a, A + smul(s, one)); same<T>(id + " minus", a - z, A - smul(s, one)); same<T>(id + " minus left", z - a, smul(s, one) - A);
          Mx<T> q = A; for (auto &x : q.a) x = s / x; same<T>(id + " inverse", z / a, q, 1e-10); }
        { S("conj"); W(&a); Mx<T> q = A; for (auto &x : q.a) x = std::conj(x); same<T>(id, a.GetConj(), q); Element z2(a); z2.Conj(); same<T>(id + " in place", z2, q); }
        { S("parts"); W(&a); Mx<double> re(m, n), im(m, n); for (size_t i = 0; i < A.a.size(); i++) { re.a[i] = A.a[i].real(); im.a[i] = A.a[i].imag(); } same<double>(id + " re", a.GetRealInComplex(), re); same<double>(id + " im", a.GetImagInComplex(), im); same<cd>(id + " tocomplex", el(re).GetRealToComplex(), cplx(re)); }
        { S("scalartimesthis c"); Element z2(a); W(&a); z2.ScalarTimesThis(z); same<T>(id, z2, smul(s, A)); }
        { S("alphaxaddthis c"); Element z2(a); W(&a, &b); z2.AlphaXaddThis(z, b); same<T>(id, z2, A + smul(s, B)); }
    } else {
        { S("scalar"); W(&a); same<T>(id + " plus", a + rs, A + smul(rs, one)); same<T>(id + " plus left", rs + a, A + smul(rs, one)); same<T>(id + " minus", a - rs, A - smul(rs, one)); same<T>(id + " minus left", rs - a, smul(rs, one) - A);
          Mx<T> q = A; for (auto &x : q.a) x = rs / x; same<T>(id + " inverse", rs / a, q, 1e-10); }
        { S("compare"); Mx<T> P = A, Q2 = B; for (auto &x : P.a) x = g.i(3); for (auto &x : Q2.a) x = g.i(3); Element p = el(P), q = el(Q2); W(&p, &q); double v = g.i(3);
          auto f = [&](const char *nm, const Element &e, std::function<bool(double, double)> h, int mode) { Mx<T> r(m, n); for (size_t i = 0; i < r.a.size(); i++) r.a[i] = mode == 0 ? h(P.a[i], Q2.a[i]) : mode == 1 ? h(P.a[i], v) : h(v, P.a[i]); same<T>(id + " " + nm, e, r, 0); };
          auto eq = [](double x, double y) { return x == y; }; auto gt = [](double x, double y) { return x > y; }; auto ge = [](double x, double y) { return x >= y; }; auto lt = [](double x, double y) { return x < y; }; auto le = [](double x, double y) { return x <= y; };
          f("==", p == q, eq, 0); f("==v", p == v, eq, 1); f("v==", v == p, eq, 2); f(">", p > q, gt, 0); f(">v", p > v, gt, 1); f("v>", v > p, gt, 2); f(">=", p >= q, ge, 0); f(">=v", p >= v, ge, 1); f("v>=", v >= p, ge, 2);
          f("<", p < q, lt, 0); f("<v", p < v, lt, 1); f("v<", v < p, lt, 2); f("<=", p <= q, le, 0); f("<=v", p <= v, le, 1); f("v<=", v <= p, le, 2); }
        { S("maxmin"); W(&a, &b); auto f = [&](const char *nm, const Element &e, std::function<double(double, double)> h) { Mx<T> r(m, n); for (size_t i = 0; i < r.a.size(); i++) r.a[i] = h(A.a[i], B.a[i]); same<T>(id + " " + nm, e, r, 1e-14); };
          f("max", a.GetMax(b), [](double x, double y) { return std::max(x, y); }); f("min", a.GetMin(b), [](double x, double y) { return std::min(x, y); }); f("maxv", a.GetMax(rs), [&](double x, double) { return std::max(x, rs); }); f("minv", a.GetMin(rs), [&](double x, double) { return std::min(x, rs); });
          f("abs", a.GetAbs(), [](double x, double) { return std::fabs(x); }); f("sqrt", a.GetAbs().GetSqrt(), [](double x, double) { return std::sqrt(std::fabs(x)); }); }
    }
    { S("scalartimesthis"); Element z(a); W(&a); z.ScalarTimesThis(rs); same<T>(id, z, rs * A); }
    { S("alphaxaddthis"); Element z(a); W(&a, &b); z.AlphaXaddThis(rs, b); same<T>(id, z, A + rs * B); z.AlphaXaddThis(rs, z); same<T>(id + " self", z, (1 + rs) * (A + rs * B)); }
    { S("dot"); W(&a, &b); R.le(id, std::fabs(a.DotProduct(b) - re_dot(A, B)), 1e-11); R.le(id + " norm", std::fabs(a.Fnorm() - fro(A)), 1e-11); R.le(id + " self", std::fabs(a.DotProduct(a) - fro(A) * fro(A)), 1e-10); }
    { S("transpose"); W(&a); same<T>(id, a.GetTranspose(), H(A)); Element z(a); z.Transpose(); same<T>(id + " in place", z, H(A)); }
    { S("hadamard"); W(&a, &b); Mx<T> p = A, q = A; for (size_t i = 0; i < p.a.size(); i++) { p.a[i] *= B.a[i]; q.a[i] /= B.a[i]; } same<T>(id, a.GetHadamardProduct(b), p); same<T>(id + " div", a.GetHadamardDivision(b), q, 1e-9); }
    { S("colnorms"); W(&a, &b); Mx<double> p(1, n), q(1, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { p(0, j) += std::norm(cd(A(i, j))); q(0, j) += std::real(cd(cj(A(i, j)) * B(i, j))); } same<double>(id, a.GetColNormsSquare(), p); same<double>(id + " dots", a.GetColDotProducts(b), q); }
    { S("submatrix"); W(&a, &b); int r0 = g.i(m), r1 = r0 + g.i(m - r0), c0 = g.i(n), c1 = c0 + g.i(n - c0); Mx<T> p(r1 - r0 + 1, c1 - c0 + 1), q = B; for (int i = r0; i <= r1; i++) for (int j = c0; j <= c1; j++) { p(i - r0, j - c0) = A(i, j); q(i, j) = A(i, j); }
      Element sub = a.GetSubmatrix(r0, r1, c0, c1); same<T>(id, sub, p); Element z(b); Element ret = z.SubmatrixAssignment(r0, r1, c0, c1, sub); same<T>(id + " assign", z, q); same<T>(id + " returned", ret, q); }
    for (int side = 0; side < 2; side++) {
        S(side ? "diag right" : "diag left"); Mx<T> dv = rnd<T>(g, side ? n : m, 1), p = A; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) p(i, j) *= dv.a[side ? j : i];
        Element de = el(dv); W(&a, &de); char *sd = side ? GLOBAL::R : GLOBAL::L; same<T>(id, de.GetDiagTimesM(a, sd), p); Element z(a); de.DiagTimesM(z, sd); same<T>(id + " in place", z, p);
    }
    { S("rankone"); Mx<T> U = rnd<T>(g, m, 1), V = rnd<T>(g, n, 1); Element u = el(U), v = el(V); W(&a, &u, &v);
      if constexpr (std::is_same<T, cd>::value) { same<T>(id, a.GetHaddRankone(rc(s), u, v), A + smul(s, U * tr(V))); Element z(a); z.HaddRankone(rc(s), u, v); same<T>(id + " in place", z, A + smul(s, U * tr(V))); }
      else { same<T>(id, a.GetHaddRankone(s, u, v), A + smul(s, U * tr(V))); Element z(a); z.HaddRankone(s, u, v); same<T>(id + " in place", z, A + smul(s, U * tr(V))); }
      for (int side = 0; side < 2; side++) { Mx<T> w = side ? V : U; Element we = el(w); Mx<T> P = eyeM<T>(w.r) - smul(s, w * H(w)); Mx<T> ex = side ? A * P : P * A; Element got = [&]() -> Element { if constexpr (std::is_same<T, cd>::value) return a.GetHtimesRankone(rc(s), we, side ? GLOBAL::R : GLOBAL::L); else return a.GetHtimesRankone(s, we, side ? GLOBAL::R : GLOBAL::L); }(); same<T>(id + (side ? " H right" : " H left"), got, ex, 1e-10); } }
    for (int f = 0; f < (C ? 9 : 4); f++) {
        int fa = C ? f / 3 : f / 2, fb = C ? f % 3 : f % 2; char *fl[3] = {GLOBAL::N, TR, GLOBAL::T};
        auto op = [&](const Mx<T> &M, int q) { return q == 0 ? M : q == 1 ? H(M) : tr(M); };
        Mx<T> X = rnd<T>(g, fa ? n : m, fa ? m : n), Y = rnd<T>(g, fb ? k : n, fb ? n : k), Z = rnd<T>(g, m, k); Element x = el(X), y = el(Y), z = el(Z), zc(z);
        S("gemm"); id += str(" %d%d", fa, fb); W(&x, &y, &zc);
        for (int mode = 0; mode < 3; mode++) { T al = mode == 1 ? T(1) : s, be = mode == 0 ? T(0) : mode == 1 ? T(1) : t; Element r(z); Mx<T> ex = smul(al, op(X, fa) * op(Y, fb)) + smul(be, Z);
            if constexpr (std::is_same<T, cd>::value) r.AlphaABaddBetaThis(rc(al), x, fl[fa], y, fl[fb], rc(be)); else r.AlphaABaddBetaThis(al, x, fl[fa], y, fl[fb], be); same<T>(id + str(" mode %d", mode), r, ex, 1e-10); }
        if (C) { Element r(z); r.AlphaABaddBetaThis(rs, x, fl[fa], y, fl[fb], rt); same<T>(id + " real scalars", r, rs * (op(X, fa) * op(Y, fb)) + rt * Z, 1e-10); }
        Element fresh(m, k, ty<T>()); if constexpr (std::is_same<T, cd>::value) fresh.AlphaABaddBetaThis(rc(s), x, fl[fa], y, fl[fb], GLOBAL::ZZERO); else fresh.AlphaABaddBetaThis(s, x, fl[fa], y, fl[fb], 0); same<T>(id + " fresh", fresh, smul(s, op(X, fa) * op(Y, fb)), 1e-10);
    }
    // square systems
    Mx<T> Q = rnd<T>(g, n, n) + 3.0 * eyeM<T>(n); Element q = el(Q);
    { S("solve"); Mx<T> Bn = rnd<T>(g, n, k), Bm = rnd<T>(g, k, n); Element x = el(Bn), y = el(Bm); W(&q, &x, &y); Mx<T> qi = inv(Q); double tol = 1e-9 * (1 + fro(qi)) * (1 + fro(Q)); same<T>(id, q % x, qi * Bn, tol); same<T>(id + " right", y / q, Bm * qi, tol); q.LUdecom(); same<T>(id + " cached", q % x, qi * Bn, tol); same<T>(id + " right cached", y / q, Bm * qi, tol); }
    { S("triangle"); Mx<T> L = Q; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) L(i, j) = 0; for (int i = 0; i < n; i++) L(i, i) = T(2 + g.u()); Mx<T> Bn = rnd<T>(g, n, k); Element l = el(L), x = el(Bn); W(&l, &x); double tol = 1e-9 * (1 + fro(inv(L)));
      same<T>(id + " N", x.TriangleLinSol(l, GLOBAL::N), inv(L) * Bn, tol); same<T>(id + " T", x.TriangleLinSol(l, GLOBAL::T), inv(tr(L)) * Bn, tol); same<T>(id + " C", x.TriangleLinSol(l, GLOBAL::C), inv(H(L)) * Bn, tol); same<T>(id + " default", x.TriangleLinSol(l), inv(L) * Bn, tol);
      Element lu = el(L); if (n > 1) { Mx<T> L2 = L; L2(0, n - 1) = 7; lu = el(L2); same<T>(id + " upper part unused", x.TriangleLinSol(lu, GLOBAL::N), inv(L) * Bn, tol); } }
    { S("sylvester"); Mx<T> P = rnd<T>(g, k, k) + 4.0 * eyeM<T>(k), Q3 = Q + 2.0 * eyeM<T>(n), F = rnd<T>(g, n, k); Element p = el(P), q3 = el(Q3), f = el(F); W(&p, &q3, &f); Element x = f.SYL(q3, p); R.ok(id + " shape", x.Getrow() == n && x.Getcol() == k); Mx<T> X = mx<T>(x); R.le(id, rel(Q3 * X + X * P, F), 1e-8);
      Mx<T> F2 = rnd<T>(g, n, n); Element f2 = el(F2); Element x2 = f2.SYL(q3, q3); Mx<T> X2 = mx<T>(x2); R.le(id + " same", rel(Q3 * X2 + X2 * Q3, F2), 1e-8); q3.SchurForm(); x2 = f2.SYL(q3, q3); X2 = mx<T>(x2); R.le(id + " cached", rel(Q3 * X2 + X2 * Q3, F2), 1e-8); }
    { S("expsym"); Mx<T> Sy = 0.5 * (Q + H(Q)); Element e = el(Sy); W(&e); for (int ul = 0; ul < 2; ul++) { Element e2 = el(Sy); Element x = e2.ExpSym(ul ? GLOBAL::U : GLOBAL::L); Mx<T> ex = eyeM<T>(n), term = eyeM<T>(n), sm = (1.0 / 64) * Sy; for (int i = 1; i < 25; i++) { term = (1.0 / i) * (term * sm); ex = ex + term; } for (int i = 0; i < 6; i++) ex = ex * ex; same<T>(id, x, ex, 1e-9 * (1 + fro(ex))); Element xl = x.LogSym(ul ? GLOBAL::U : GLOBAL::L); same<T>(id + " log", xl, Sy, 1e-7 * (1 + fro(ex) * fro(inv(ex)))); } }
    { S("orth"); int mm = std::max(m, n), nn = std::min(m, n); Mx<T> X = rnd<T>(g, mm, nn); Element x = el(X); W(&x); Mx<T> P = mx<T>(x.GetOrth()); R.ok(id + " shape", P.r == mm && P.c == nn); R.le(id, rel(H(P) * P, eyeM<T>(nn)), 1e-9); Mx<T> Hh = H(P) * X; R.le(id + " polar", rel(Hh, H(Hh)), 1e-9); }
    { S("reshape"); W(&a); Element z = a.GetReshape(n, m); R.ok(id, z.Getrow() == n && z.Getcol() == m && dist(data(z), data(a)) == 0); Element z2(a); z2.Reshape(m * n); R.ok(id + " in place", z2.Getrow() == m * n && z2.Getcol() == 1 && dist(data(z2), data(a)) == 0); z2 = a; same<T>(id + " assign back", z2, A); }
    { S("special"); Element z(a); W(&a); z.SetToIdentity(); Mx<T> I(m, n); for (int i = 0; i < std::min(m, n); i++) I(i, i) = 1; same<T>(id + " identity", z, I, 0); Element z2(a); z2.SetToZeros(); same<T>(id + " zeros", z2, Mx<T>(m, n), 0); Element z3(q); z3.ScaledIdOPE(rs); same<T>(id + " scaled identity", z3, rs * eyeM<T>(n), 0); Element z4(a); z4.RandUnform(2, 3); bool in = true; for (double v : data(z4)) if (!(v >= 2 && v <= 3)) in = false; R.ok(id + " uniform", in); Element z5(a); z5.RandGaussian(); R.ok(id + " gaussian", finite(data(z5)) && z5.Getrow() == m); }
    // factorisations and householder products
    { S("householder"); int mm = std::max(m, n), nn = std::min(m, n); Mx<T> X = rnd<T>(g, mm, nn); Element x = el(X); x.HHRDecom(); Element hh = x.Field("_HHR"), tau = x.Field("_tau"); Mx<T> I = eyeM<T>(mm), F = rnd<T>(g, mm, k), G2 = rnd<T>(g, k, mm); Element ie = el(I), fe = el(F), ge = el(G2); W(&x, &fe, &ge);
      Mx<T> Qf = mx<T>(ie.HHRMtp(hh, tau, GLOBAL::N, GLOBAL::L)); R.le(id + " orthogonal", rel(H(Qf) * Qf, I), 1e-10); same<T>(id + " L", fe.HHRMtp(hh, tau, GLOBAL::N, GLOBAL::L), Qf * F, 1e-10); same<T>(id + " L trans", fe.HHRMtp(hh, tau, TR, GLOBAL::L), H(Qf) * F, 1e-10); same<T>(id + " R", ge.HHRMtp(hh, tau, GLOBAL::N, GLOBAL::R), G2 * Qf, 1e-10); same<T>(id + " R trans", ge.HHRMtp(hh, tau, TR, GLOBAL::R), G2 * H(Qf), 1e-10);
      Mx<T> RR = H(Qf) * X; double lo = 0; for (int i = 0; i < mm; i++) for (int j = 0; j < std::min(i, nn); j++) lo += std::abs(RR(i, j)); R.le(id + " triangular", lo, 1e-10); }
    if constexpr (std::is_same<T, cd>::value) {
        S("fft"); for (int dir = 0; dir < 2; dir++) { W(&a); Mx<T> ex(m, n); double sg = dir ? 1 : -1; for (int p = 0; p < m; p++) for (int r = 0; r < n; r++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) ex(p, r) += A(i, j) * std::polar(1.0, sg * 6.283185307179586 * ((double)p * i / m + (double)r * j / n)); same<T>(id, a.GetFFT2D(dir ? FFTW_BACKWARD : FFTW_FORWARD), ex, 1e-10); Element z(b), zk(b); a.FFT2D(dir ? FFTW_BACKWARD : FFTW_FORWARD, &z); same<T>(id + " into", z, ex, 1e-10); same<T>(id + " into, copy", zk, B, 0); }
    }
    // sparse products
    { S("sparse"); int nz = 1 + g.i(6); std::vector<integer> ir, jc; Mx<T> P(m, n); std::vector<double> vals; std::set<int> used;
      for (int i = 0; i < nz; i++) { int r = g.i(m), c = g.i(n); if (!used.insert(r + c * m).second) continue; T v = sc<T>(g); P(r, c) = v; ir.push_back(r); jc.push_back(c); vals.push_back(std::real(cd(v))); if (C) vals.push_back(std::imag(cd(v))); }
      std::unique_ptr<SparseMatrix> spp(C ? new SparseMatrix(m, n, ir.data(), jc.data(), (realdpcomplex *)vals.data(), (integer)ir.size()) : new SparseMatrix(m, n, ir.data(), jc.data(), vals.data(), (integer)ir.size())); SparseMatrix &sp = *spp;
      Mx<T> F = rnd<T>(g, k, m); Element f = el(F); W(&d, &f); same<T>(id, sp * d, P * D, 1e-10); same<T>(id + " right", f * sp, F * P, 1e-10); }
}
void prop_C03() {
    int N = R.thorough ? 500 : 60;
    for (int r = 0; r < N; r++) { isolated(str("C03/real|#%d", r), [&] { Rng g(R.seed * 1000 + r); ops<double>(g, r); }); isolated(str("C03/complex|#%d", r), [&] { Rng g(R.seed * 1000 + 500 + r); ops<cd>(g, r); }); }
}

// ---------------------------------------------------------------- C01 / C02: histories against a value model
struct Model {
    int kind = 0;                      // 0 real 1 complex 2 product
    int r = 0, c = 0; Vd v; std::vector<std::pair<int, int>> comp; std::vector<int> cpx;
    std::map<std::string, Vd> f; std::vector<std::map<std::string, Vd>> cf;
};
struct Hist {
    Rng g; std::string base, log; std::vector<Element *> e; std::vector<Model> m; bool fields;
    Hist(int seed, const std::string &b, bool fl) : g(seed), base(b), fields(fl) {}
    ~Hist() { for (auto p : e) delete p; }
    static Vd rv(Rng &g, int n) { Vd v(n); for (auto &x : v) x = g.n(); return v; }
    int clen(const Model &M, int j) { return M.comp[j].first * M.comp[j].second * (M.cpx[j] ? 2 : 1); }
    int coff(const Model &M, int j) { int o = 0; for (int i = 0; i < j; i++) o += clen(M, i); return o; }
    void add(int kind, int variant) {
        Model M; M.kind = kind; Element *p;
        if (kind < 2) { M.r = 2 + variant % 3; M.c = 1 + variant % 2; M.v = rv(g, M.r * M.c * (kind ? 2 : 1)); p = new Element(M.r, M.c, kind ? "complex" : "real"); fill(*p, M.v); }
        else {
            Element A(3, 2), B(2, 2), Cc(2, 1, "complex"), D(6), E2(4);
            if (variant % 3 == 0) { p = new Element(2, &A, 2, &B, 1); M.comp = {{3, 2}, {3, 2}, {2, 2}}; M.cpx = {0, 0, 0}; }
            else if (variant % 3 == 1) { p = new Element(2, &A, 1, &Cc, 1); M.comp = {{3, 2}, {2, 1}}; M.cpx = {0, 1}; }
            else { p = new Element(2, &D, 2, &E2, 1); M.comp = {{6, 1}, {6, 1}, {4, 1}}; M.cpx = {0, 0, 0}; }
            M.r = p->Getlength(); M.c = 1; M.v = rv(g, M.r); M.cf.resize(M.comp.size()); fill(*p, M.v);
        }
        e.push_back(p); m.push_back(M);
    }
    void clr(int i) { m[i].f.clear(); for (auto &x : m[i].cf) x.clear(); }
    std::string nm() { const char *n[] = {"alpha", "beta", "EGrad"}; return n[g.i(3)]; }
    void step() {
        int i = g.i(e.size()), j = g.i(e.size()), op = g.i(30); Model &M = m[i]; Element &x = *e[i]; int n = M.v.size(); bool C = M.kind == 1;
        log += str(" %d:%d,%d", op, i, j);
        switch (op) {
        case 0: case 1: case 2: *e[i] = *e[j]; if (i != j) m[i] = m[j]; break;
        case 3: { Element t(*e[j]); *e[i] = t; m[i] = Model(m[j]); t.ObtainWriteEntireData()[0] = 77; break; }
        case 4: { Element *p = new Element(x); double *d = p->ObtainWritePartialData(); if (n) d[n - 1] = -5; delete p; break; }
        case 5: { double *d = x.ObtainWriteEntireData(); M.v = rv(g, n); for (int k = 0; k < n; k++) d[k] = M.v[k]; clr(i); break; }
        case 6: { double *d = x.ObtainWritePartialData(); int k = g.i(n); M.v[k] = d[k] = g.n(); clr(i); break; }
        case 7: { double s = g.n(); x.ScalarTimesThis(s); for (auto &q : M.v) q *= s; clr(i); break; }
        case 8: if (m[j].v.size() == (size_t)n) { double s = g.n(); Vd w = m[j].v; x.AlphaXaddThis(s, *e[j]); for (int k = 0; k < n; k++) M.v[k] += s * w[k]; clr(i); } break;
        case 9: x.SetToZeros(); M.v.assign(n, 0); clr(i); break;
        case 10: if (M.kind < 2) { int r0 = g.i(M.r), c0 = g.i(M.c); Element s(1, 1, C ? "complex" : "real"); Vd w = rv(g, C ? 2 : 1); fill(s, w); x.SubmatrixAssignment(r0, r0, c0, c0, s); for (size_t k = 0; k < w.size(); k++) M.v[(r0 + c0 * M.r) * w.size() + k] = w[k]; clr(i); } break;
        case 11: if (M.kind < 2) { bool diff = !(M.r == M.c); x.Reshape(M.c, M.r); std::swap(M.r, M.c); if (diff) clr(i); } break;
        case 12: if (M.kind < 2) { x.Transpose(); Vd w(n); int q = C ? 2 : 1; for (int a = 0; a < M.r; a++) for (int b = 0; b < M.c; b++) for (int k = 0; k < q; k++) w[(b + a * M.c) * q + k] = (k ? -1 : 1) * M.v[(a + b * M.r) * q + k]; M.v = w; std::swap(M.r, M.c); clr(i); } break;
        case 13: if (C) { x.Conj(); for (int k = 1; k < n; k += 2) M.v[k] = -M.v[k]; clr(i); } break;
        case 14: if (M.kind == 0) { Element u(M.r), v(M.c); Vd a = rv(g, M.r), b = rv(g, M.c); fill(u, a); fill(v, b); x.HaddRankone(0.5, u, v); for (int p = 0; p < M.r; p++) for (int q = 0; q < M.c; q++) M.v[p + q * M.r] += 0.5 * a[p] * b[q]; clr(i); } break;
        case 15: if (M.kind < 2) { x.SetToIdentity(); M.v.assign(n, 0); int q = C ? 2 : 1; for (int k = 0; k < std::min(M.r, M.c); k++) M.v[(k + k * M.r) * q] = 1; clr(i); } break;
        case 16: if (M.kind == 2) { x.CopyOnWrite(); int k = g.i(M.comp.size()); Element &y = x.GetElement(k); double *d = y.ObtainWritePartialData(); int o = coff(M, k); d[0] = M.v[o] = g.n(); clr_copy(i); break; } break;
        case 17: if (M.kind == 2) { Element old(x); x.NewMemoryOnWrite(); M.v.clear(); for (size_t k = 0; k < M.comp.size(); k++) { Vd w = rv(g, clen(M, k)); Element t(M.comp[k].first, M.comp[k].second, M.cpx[k] ? "complex" : "real"); fill(t, w); x.GetElement(k) = t; M.v.insert(M.v.end(), w.begin(), w.end()); } clr(i); } break;
        case 18: if (M.kind == 2) { int k = g.i(M.comp.size()); Element t = x.GetElement(k); R.ok(base + "/component kind", t.Getiscomplex() == (bool)M.cpx[k] && t.Getrow() == M.comp[k].first && t.Getcol() == M.comp[k].second, log); t.ObtainWritePartialData()[0] = 99; Vector z(x.GetElement(k)); z.ScalarTimesThis(3.0); } break;
        case 19: if (M.kind == 2) { // a copied component must survive its product
                int k = g.i(M.comp.size()); Element *p = new Element(x); Element t = p->GetElement(k), t2; t2 = p->GetElement(k); p->SetToZeros(); delete p; Vd w(M.v.begin() + coff(M, k), M.v.begin() + coff(M, k) + clen(M, k)); R.le(base + "/copied component", dist(data(t), w), 0, log); R.le(base + "/assigned component", dist(data(t2), w), 0, log); } break;
        case 20: x.RandGaussian(); M.v = data(x); clr(i); break;
        case 21: case 22: { std::string s = nm(); Vd w = rv(g, 3); Element t(3); fill(t, w); x.AddToFields(s, t); M.f[s] = w; t.ObtainWriteEntireData()[0] = 1234; break; }
        case 23: if (M.f.size()) { std::string s = M.f.begin()->first; Element t = x.Field(s); t.ScalarTimesThis(2.0); Element &ref = x.Field(s); ref.ObtainWritePartialData()[1] = 8; M.f[s][1] = 8; } break;
        case 24: if (M.f.size()) { std::string s = M.f.begin()->first; x.RemoveFromFields(s); M.f.erase(s); } break;
        case 25: if (M.kind == 2) { int k = g.i(M.comp.size()); std::string s = nm(); Vd w = rv(g, 2); Element t(2); fill(t, w); x.GetElement(k).AddToFields(s, t); M.cf[k][s] = w; } break;
        case 26: if (m[j].v.size() == (size_t)n && M.kind < 2 && m[j].kind < 2 && m[j].kind == M.kind) { Element t = x + *e[j], t2 = 2.0 * x - *e[j]; t.ObtainWritePartialData()[0] = 5; t2.SetToZeros(); } break;
        case 27: if (M.kind == 0 && M.c >= 1) { Element A(M.r, M.r); Vd w = rv(g, M.r * M.r); fill(A, w); Element old(x); x.AlphaABaddBetaThis(1.0, A, GLOBAL::N, old, GLOBAL::N, 0.5); Vd z(n); for (int p = 0; p < M.r; p++) for (int q = 0; q < M.c; q++) { z[p + q * M.r] = 0.5 * M.v[p + q * M.r]; for (int k = 0; k < M.r; k++) z[p + q * M.r] += w[p + k * M.r] * M.v[k + q * M.r]; } M.v = z; clr(i); } break;
        case 28: if (m[j].v.size() == (size_t)n && i != j) { Element &y = *e[j]; y.CopyTo(x); m[i] = m[j]; } break;
        case 29: if (M.kind < 2) { // a decomposition must not disturb the entries, and must describe the current ones
                x.QRDecom(); x.SVDDecom(); x.HHRDecom(); if (M.r == M.c) { x.LUdecom(); x.SchurForm(); } fac(i); x.RemoveAllFromFields(); M.f.clear(); } break;
        }
        if (M.kind < 2 && g.i(4) == 0) lazyfac(i);
    }
    void clr_copy(int i) { // CopyOnWrite keeps the attached data of the whole: the caller writes a component and owns that decision
        Element &x = *e[i]; x.RemoveAllFromFields(); clr(i); }
    // leave factorisations attached, so that later operations meet them
    void lazyfac(int i) { Model &M = m[i]; Element &x = *e[i]; if (!fields) return; if (M.f.size()) { x.RemoveAllFromFields(); M.f.clear(); } x.QRDecom(); x.SVDDecom(); if (M.r == M.c) { x.LUdecom(); x.SchurForm(); } fac(i); facs.insert(e[i]); }
    std::set<Element *> facs;
    template <class T> void facT(int i) {
        Element &x = *e[i]; Mx<T> A = mx<T>(x); double s = 1 + fro(A); int mn = std::min(A.r, A.c);
        auto F = [&](const char *n) { return mx<T>(x.Field(n)); };
        if (x.FieldsExist("_Q")) R.ok(base + "/QR shape", x.Field("_Q").Getrow() == A.r && x.Field("_Q").Getcol() == mn && x.Field("_R").Getcol() == A.c, log) && R.le(base + "/QR", fro(F("_Q") * F("_R") - A) / s, 1e-10, log) && R.le(base + "/Q orthonormal", fro(H(F("_Q")) * F("_Q") - eyeM<T>(mn)), 1e-10, log);
        if (x.FieldsExist("_U") && R.ok(base + "/SVD shape", x.Field("_U").Getrow() == A.r && x.Field("_Vt").Getcol() == A.c, log)) { Mx<T> U = F("_U"), V = F("_Vt"), S2 = F("_S"), D(mn, mn); for (int k = 0; k < mn; k++) D(k, k) = S2.a[k]; R.le(base + "/SVD", fro(U * D * V - A) / s, 1e-10, log); R.le(base + "/SVD orthonormal", fro(H(U) * U - eyeM<T>(mn)) + fro(V * H(V) - eyeM<T>(mn)), 1e-10, log); }
        if (x.FieldsExist("_SchurForm") && R.ok(base + "/Schur shape", x.Field("_SchurForm").Getrow() == A.r, log)) { Mx<T> Z = F("_SchurVec"), Tt = F("_SchurForm"); R.le(base + "/Schur", fro(Z * Tt * H(Z) - A) / s, 1e-9, log); }
        if (x.FieldsExist("_LU") && R.ok(base + "/LU shape", x.Field("_LU").Getrow() == A.r, log)) { // P L U = A
            Mx<T> LU = F("_LU"); const int *p = (const int *)x.Field("_P").ObtainReadData(); int n = A.r; Mx<T> L = eyeM<T>(n), U(n, n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { if (a > b) L(a, b) = LU(a, b); else U(a, b) = LU(a, b); } Mx<T> PA = L * U; for (int a = n - 1; a >= 0; a--) if (p[a] - 1 != a) for (int b = 0; b < n; b++) std::swap(PA(a, b), PA(p[a] - 1, b)); R.le(base + "/LU", fro(PA - A) / s, 1e-10, log); }
    }
    void fac(int i) { if (m[i].kind == 1) facT<cd>(i); else facT<double>(i); }
    void check(const std::string &cid) {
        for (size_t i = 0; i < e.size(); i++) {
            Element &x = *e[i]; Model &M = m[i];
            if (!fields) {
                R.ok(cid + "/shape", x.Getrow() == M.r && x.Getcol() == M.c && x.Getiscomplex() == (M.kind == 1) && (x.Getnumoftypes() != 0) == (M.kind == 2), log);
                Vd d = data(x); R.le(cid + "/entries", d.size() == M.v.size() ? dist(d, M.v) / (1 + nrm(M.v)) : INFINITY, 1e-12, log);
                if (M.kind == 2 && R.ok(cid + "/components", x.Getnumofelements() == (int)M.comp.size(), log)) for (size_t k = 0; k < M.comp.size(); k++) { Element &y = x.GetElement(k); if (R.ok(cid + "/component shape", y.Getrow() == M.comp[k].first && y.Getcol() == M.comp[k].second && y.Getiscomplex() == (bool)M.cpx[k], log)) R.le(cid + "/component", dist(data(y), Vd(d.begin() + coff(M, k), d.begin() + coff(M, k) + clen(M, k))), 0, log); }
            } else {
                for (auto &q : M.f) if (R.ok(cid + "/attached data lost", x.FieldsExist(q.first), log + " " + q.first)) R.le(cid + "/attached data", dist(data(x.Field(q.first)), q.second), 1e-12, log + " " + q.first);
                for (const char *s : {"alpha", "beta", "EGrad"}) if (!M.f.count(s)) R.ok(cid + "/stale attached data", !x.FieldsExist(s), log + " " + s);
                if (M.kind == 2 && x.Getnumofelements() == (int)M.comp.size()) for (size_t k = 0; k < M.comp.size(); k++) { Element &y = x.GetElement(k); for (auto &q : M.cf[k]) if (R.ok(cid + "/component data lost", y.FieldsExist(q.first), log)) R.le(cid + "/component data", dist(data(y.Field(q.first)), q.second), 1e-12, log); for (const char *s : {"alpha", "beta", "EGrad"}) if (!M.cf[k].count(s)) R.ok(cid + "/stale component data", !y.FieldsExist(s), log); }
                if (M.kind < 2) fac(i);
            }
        }
    }
};
static void hist(const char *P, bool fields) {
    int N = R.thorough ? 3000 : 300;
    for (int b = 0; b < N; b += 25) isolated(str("%s/histories|#%d", P, b), [&] {
        for (int r = b; r < b + 25; r++) { Hist h(R.seed * 7919 + r, str("%s/histories|#%d", P, r), fields); h.add(0, r); h.add(0, r); h.add(1, r); h.add(1, r + 1); h.add(2, r); h.add(2, r); h.add(2, r + 1); h.add(0, r / 3 + 1);
            long f0 = R.fails; for (int k = 0; k < 40 && R.fails == f0; k++) { h.step(); h.check(h.base); } } });
}
// decompositions at rest: symmetric / definite ones, modes and kinds
template <class T> static void decs(Rng &g, int r) {
    std::string b = std::string("C02/factorisations ") + ty<T>() + str("|#%d", r); int n = 1 + g.i(5); Mx<T> X = rnd<T>(g, n, n), P = X * H(X) + 0.5 * eyeM<T>(n), Sy = X + H(X);
    Element p = el(P), s = el(Sy), keep(p); p.CholDecom(); Mx<T> L = mx<T>(p.Field("_L")); R.le(b + " chol", rel(L * H(L), P), 1e-11); double up = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) up += std::abs(L(i, j)); R.le(b + " chol triangular", up, 0); R.ok(b + " entries", dist(data(keep), data(p)) == 0);
    auto eig = [&](Element &e, const Mx<T> &S2, const char *w) { Mx<T> V = mx<T>(e.Field("_EigVec")), l = mx<T>(e.Field("_EigVal")), D(n, n); for (int i = 0; i < n; i++) D(i, i) = l.a[i]; R.le(b + w, rel(V * D * H(V), S2), 1e-10); R.le(b + w + " orthonormal", rel(H(V) * V, eyeM<T>(n)), 1e-10); };
    s.EigenDecomSym(GLOBAL::N); R.ok(b + " eig values only", s.FieldsExist("_EigVal")); s.EigenDecomSym(); eig(s, Sy, " eig"); s.EigenDecomSym(GLOBAL::N); eig(s, Sy, " eig again");
    s.SchurForm(GLOBAL::N); s.SchurForm(); Mx<T> Z = mx<T>(s.Field("_SchurVec")), Q = mx<T>(s.Field("_SchurForm")); R.le(b + " schur", rel(Z * Q * H(Z), Sy), 1e-9);
    Element s2 = s; s2.ScalarTimesThis(2.0); s2.EigenDecomSym(); eig(s2, 2.0 * Sy, " eig after write"); eig(s, Sy, " eig of the original"); s2 = p; s2.CholDecom(); s2.AlphaXaddThis(1.0, keep); s2.CholDecom(); Mx<T> L2 = mx<T>(s2.Field("_L")); R.le(b + " chol after write", rel(L2 * H(L2), 2.0 * P), 1e-11); s2.ScaledIdOPE(4); s2.CholDecom(); L2 = mx<T>(s2.Field("_L")); R.le(b + " chol of identity", rel(L2, 2.0 * eyeM<T>(n)), 1e-11);
}
// every operation that changes an element in place, on an element that shares its storage: the other holders keep value, shape and attached data,
// the element gets the value an unshared one would get, and what was attached to the old value is gone from it
template <class T> static void inplace(const char *P, bool fields, Rng &g, int rep) {
    const bool C = std::is_same<T, cd>::value; int m = 1 + g.i(4), n = 1 + g.i(4), k = 1 + g.i(3); if (rep % 2) n = m;
    Mx<T> A = rnd<T>(g, m, n), B = rnd<T>(g, m, n), X = rnd<T>(g, m, k), Y = rnd<T>(g, k, n), U = rnd<T>(g, m, 1), V = rnd<T>(g, n, 1), DL = rnd<T>(g, m, 1), DR = rnd<T>(g, n, 1); double s = g.n(), t = g.n(); T z = sc<T>(g);
    int r0 = g.i(m), r1 = r0 + g.i(m - r0), c0 = g.i(n), c1 = c0 + g.i(n - c0); Mx<T> Sb = rnd<T>(g, r1 - r0 + 1, c1 - c0 + 1);
    Element b = el(B), x = el(X), y = el(Y), u = el(U), v = el(V), dl = el(DL), dr = el(DR), sb = el(Sb);
    auto Z = [](T w) { if constexpr (std::is_same<T, cd>::value) return rc(w); else return w; };
    std::vector<std::pair<std::string, std::function<void(Element &)>>> ops = {
        {"diagonal left", [&](Element &e) { dl.DiagTimesM(e, GLOBAL::L); }}, {"diagonal right", [&](Element &e) { dr.DiagTimesM(e, GLOBAL::R); }},
        {"rank one", [&](Element &e) { e.HaddRankone(Z(z), u, v); }}, {"axpy real", [&](Element &e) { e.AlphaXaddThis(s, b); }}, {"axpy", [&](Element &e) { e.AlphaXaddThis(Z(z), b); }}, {"axpy self", [&](Element &e) { e.AlphaXaddThis(s, e); }},
        {"scale real", [&](Element &e) { e.ScalarTimesThis(s); }}, {"scale", [&](Element &e) { e.ScalarTimesThis(Z(z)); }}, {"gemm", [&](Element &e) { e.AlphaABaddBetaThis(Z(z), x, GLOBAL::N, y, GLOBAL::N, Z(T(t))); }}, {"gemm real", [&](Element &e) { e.AlphaABaddBetaThis(s, x, GLOBAL::N, y, GLOBAL::N, t); }},
        {"submatrix", [&](Element &e) { e.SubmatrixAssignment(r0, r1, c0, c1, sb); }}, {"transpose", [&](Element &e) { e.Transpose(); }}, {"zeros", [&](Element &e) { e.SetToZeros(); }}, {"identity", [&](Element &e) { e.SetToIdentity(); }},
        {"plus assign", [&](Element &e) { e += b; }}, {"minus assign", [&](Element &e) { e -= b; }}, {"assign", [&](Element &e) { e = b; }}, {"copy to", [&](Element &e) { b.CopyTo(e); }}, {"write entire", [&](Element &e) { double *p = e.ObtainWriteEntireData(); for (integer i = 0; i < e.Getlength(); i++) p[i] = i; }}, {"write partial", [&](Element &e) { e.ObtainWritePartialData()[0] = 5; }}, {"new memory", [&](Element &e) { e.NewMemoryOnWrite(); double *p = e.ObtainWriteEntireData(); for (integer i = 0; i < e.Getlength(); i++) p[i] = 2 * i; }},
        {"resize", [&](Element &e) { e = x; }}, {"delete", [&](Element &e) { e.Delete(); e = b; }}};
    if (m * n > 1 && !(m == 1 && n == 1)) ops.push_back({"reshape", [&](Element &e) { e.Reshape(m * n); if (n == 1) e.ScalarTimesThis(1.5); }});
    if (m == n) ops.push_back({"scaled identity", [&](Element &e) { e.ScaledIdOPE(s); }});
    if (C) { ops.push_back({"conjugate", [&](Element &e) { e.Conj(); }}); ops.push_back({"fft", [&](Element &e) { b.FFT2D(FFTW_FORWARD, &e); }}); }
    for (auto &o : ops) {
        Element a = el(A), lone = el(A), w3(3); fill(w3, {1, 2, 3}); a.AddToFields("alpha", w3); Element first(a), second(5, 5, C ? "complex" : "real"); second = a;
        Element *who[2] = {&a, &second}; bool last = g.i(2); Element &e = *who[last]; Element *rest[2] = {&first, last ? &a : &second}; std::string id = std::string(P) + "/in place " + ty<T>() + "|" + o.first + str(" %dx%d#%d", m, n, rep);
        std::vector<const Element *> in = {&b, &x, &y, &u, &v, &dl, &dr, &sb}; std::vector<Vd> was; for (auto q : in) was.push_back(data(*q));
        o.second(e); o.second(lone);
        if (!fields) {
            for (int i = 0; i < 2; i++) { R.ok(id + "/other holder's shape", rest[i]->Getrow() == m && rest[i]->Getcol() == n && rest[i]->Getiscomplex() == C); R.le(id + "/other holder", rel(mx<T>(*rest[i]), A), 0); }
            for (size_t i = 0; i < in.size(); i++) R.le(id + "/operand", dist(data(*in[i]), was[i]), 0);
            R.ok(id + "/shape", e.Getrow() == lone.Getrow() && e.Getcol() == lone.Getcol()); R.le(id + "/value", dist(data(e), data(lone)), 0);
            double *p = rest[0]->ObtainWritePartialData(); Vd keep = data(e); p[0] = 1e6; R.le(id + "/written afterwards", dist(data(e), keep), 0);
        } else {
            for (int i = 0; i < 2; i++) if (R.ok(id + "/other holder lost its data", rest[i]->FieldsExist("alpha"))) R.le(id + "/other holder's data", dist(data(rest[i]->Field("alpha")), {1, 2, 3}), 0);
            R.ok(id + "/stale data", !e.FieldsExist("alpha"));
        }
    }
}
static void inpl(const char *P, bool fields) { for (int r = 0; r < (R.thorough ? 200 : 24); r++) { isolated(str("%s/in place real|#%d", P, r), [&] { Rng g(R.seed * 300 + r); inplace<double>(P, fields, g, r); }); isolated(str("%s/in place complex|#%d", P, r), [&] { Rng g(R.seed * 400 + r); inplace<cd>(P, fields, g, r); }); } }
void prop_C01() { hist("C01", false); inpl("C01", false); }
void prop_C02() {
    hist("C02", true); inpl("C02", true);
    for (int r = 0; r < (R.thorough ? 200 : 30); r++) { isolated(str("C02/factorisations real|#%d", r), [&] { Rng g(R.seed * 100 + r); decs<double>(g, r); }); isolated(str("C02/factorisations complex|#%d", r), [&] { Rng g(R.seed * 100 + r); decs<cd>(g, r); }); }
}
