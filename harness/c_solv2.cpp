#include "solv.h"
// C13: trust-region steps, acceptance and radius rule
static std::string gid;
typedef std::vector<Vd> MatV;
// own Gaussian elimination
static bool solveDense(MatV A, Vd b, Vd &x) {
    int n = (int)b.size(); for (int c = 0; c < n; c++) { int p = c; for (int r = c + 1; r < n; r++) if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r; if (std::fabs(A[p][c]) < 1e-300) return false; std::swap(A[p], A[c]); std::swap(b[p], b[c]);
        for (int r = c + 1; r < n; r++) { double f = A[r][c] / A[c][c]; for (int k = c; k < n; k++) A[r][k] -= f * A[c][k]; b[r] -= f * b[c]; } }
    x.assign(n, 0); for (int r = n - 1; r >= 0; r--) { double s = b[r]; for (int k = r + 1; k < n; k++) s -= A[r][k] * x[k]; x[r] = s / A[r][r]; }
    return true;
}
static Vd eigs(MatV A) { // Jacobi
    int n = (int)A.size(); for (int sweep = 0; sweep < 60; sweep++) { double off = 0; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { off += A[p][q] * A[p][q]; if (std::fabs(A[p][q]) < 1e-300) continue;
            double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < n; k++) { double a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
            for (int k = 0; k < n; k++) { double a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; } } if (off < 1e-300) break; }
    Vd r(n); for (int i = 0; i < n; i++) r[i] = A[i][i]; return r;
}
template <class S> struct P13 : public S {
    double oDelta = 0, oRho = 0, oF1 = 0, oF2 = 0, oN = 0; int oSt = -1; Vd oX1, oX2; bool have = false, noniso = false; long acc = 0, rej = 0, bnd = 0;
    std::function<Vd(const Vd &)> pc; // diagonal preconditioner (inverse metric factor) on Euclidean domains
    P13(const Problem *p, const Variable *x) : S(p, x) {}
    Vector hv(const Vector &e) {
        Vector r = this->Mani->GetEMPTY(); long a = NF, b = NG, c = NH;
        if (std::is_same<S, RTRNewton>::value) { Variable z(this->x1); z.RemoveAllFromFields(); this->Prob->f(z); Vector gg = this->Mani->GetEMPTY(); this->Prob->Grad(z, &gg); this->Prob->HessianEta(z, e, &r); }
        else this->HessianEta(e, &r);
        NF = a; NG = b; NH = c; return r;
    }
    double pnorm(const Vector &e) { // norm in which the region is measured
        if (!pc) return std::sqrt(this->Mani->Metric(this->x1, e, e));
        Vd v = data(e), one(v.size(), 1.0), w = pc(one); double s = 0; for (size_t i = 0; i < v.size(); i++) s += v[i] * v[i] / w[i]; return std::sqrt(s);
    }
    void transition() {
        if (!have) return; have = false;
        bool accurate = oN / (this->ngf0 + this->Tolerance) < this->Accuracy;
        double d = oDelta; bool brk = false;
        auto near = [&](double a, double b) { return std::fabs(a - b) < 1e-9 * (1 + std::fabs(b)); };
        if (oRho > 0.75) { if (oSt == TRSM_EXCREGION || oSt == TRSM_NEGCURVTURE || oSt == TRSM_MAXITER) d *= this->Magnified_tau; if (d > this->maximum_Delta) d = this->maximum_Delta; }
        else if (oRho < 0.25 && !accurate) { d *= this->Shrinked_tau; if (d < this->minimum_Delta) brk = true; }
        if (!near(oRho, 0.75) && !near(oRho, 0.25)) R.ok(gid + "/radius", std::fabs(d - this->Delta) <= 1e-12 * d, str("rho=%.17g status=%d radius %.17g -> %.17g, rule gives %.17g", oRho, oSt, oDelta, this->Delta, d));
        if (brk) { R.ok(gid + "/unchanged", dist(oX1, data(this->x1)) == 0, "the iterate moved although the radius became too small"); return; }
        bool accept = oRho > this->Acceptence_Rho || (std::fabs(oF1 - oF2) / (std::fabs(oF1) + 1) < std::sqrt(2.220446049250313e-16) && oF2 < oF1) ||
            (accurate && (oF2 < oF1 || oSt == TRSM_MIN || oSt == TRSM_LCON || oSt == TRSM_SCON));
        Vd now = data(this->x1); bool moved = dist(now, oX2) == 0, stayed = dist(now, oX1) == 0;
        if (moved && !stayed) acc++; else rej++;
        if (!near(oRho, this->Acceptence_Rho)) R.ok(gid + "/accept", accept ? moved : stayed, str("rho=%.17g threshold %.3g f1=%.17g f2=%.17g accept=%d moved=%d", oRho, (double)this->Acceptence_Rho, oF1, oF2, accept, moved));
        R.ok(gid + "/value", this->f1 == (moved && !stayed ? oF2 : (stayed && !moved ? oF1 : this->f1)));
    }
    void reference(Vector &eta, int &st, int &it, double &margin, double Delta) { // textbook Steihaug-Toint
        const Manifold *M = this->Mani; const Variable &x = this->x1; Vector r(this->gf1), z(r), d(r), e(r); e = scaled(M, x, 0, r);
        auto prec = [&](const Vector &v) { Vector o = M->GetEMPTY(); this->Prob->PreConditioner(x, v, &o); return o; };
        z = prec(r); d = scaled(M, x, -1, z); double n0 = std::sqrt(M->Metric(x, r, r)), zr = M->Metric(x, z, r); margin = 1; st = TRSM_MAXITER; it = 0; double mod = 0;
        auto mg = [&](double a, double b) { margin = std::min(margin, std::fabs(a - b) / (1e-300 + std::fabs(a) + std::fabs(b))); };
        for (it = 0; it < this->Max_Inner_Iter; it++) {
            Vector Hd = hv(d); double k = M->Metric(x, d, Hd), a = zr / k; Vector en = lc(M, x, 1, e, a, d); double dd = M->Metric(x, d, d);
            if (dd < 1e-300) { margin = 0; return; }
            margin = std::min(margin, std::fabs(k) / dd / (1e-300 + std::sqrt(M->Metric(x, Hd, Hd) / dd)));
            if (k > 0) mg(pnorm(en), Delta);
            if (k <= 0 || pnorm(en) >= Delta) { // boundary point along d, by the quadratic formula in the same norm
                double pe = pnorm(e), pd = pnorm(d), p1 = pnorm(lc(M, x, 1, e, 1, d)), c = (p1 * p1 - pe * pe - pd * pd) / 2;
                double t = (-c + std::sqrt(c * c + pd * pd * (Delta * Delta - pe * pe))) / (pd * pd); eta = lc(M, x, 1, e, t, d); st = k < 0 ? TRSM_NEGCURVTURE : TRSM_EXCREGION; return; }
            e = en; r = lc(M, x, 1, r, a, Hd); Vector rp(r); M->Projection(x, r, &rp); r = rp; double nm = M->Metric(x, e, this->gf1) + 0.5 * M->Metric(x, e, hv(e)); margin = std::min(margin, (mod - nm) / (1e-300 + std::fabs(nm))); mod = nm;
            double nr = std::sqrt(M->Metric(x, r, r)), p = std::pow(n0, (double)this->theta), b = n0 * std::min(p, (double)this->kappa);
            if (it >= this->Min_Inner_Iter || nr == 0) { mg(nr, b); if (nr <= b) { mg(p, this->kappa); st = this->kappa < p ? TRSM_LCON : TRSM_SCON; eta = e; return; } }
            z = prec(r); double zn = M->Metric(x, z, r); d = lc(M, x, zn / zr, d, -1, z); zr = zn;
        }
        eta = e;
    }
    void tCG_TR() override {
        transition();
        double D = this->Delta; Vector g1(this->gf1);
        { Vector gg = gradAt(this->Prob, this->Mani, this->x1); R.ok(gid + "/gf1", dist(data(gg), data(this->gf1)) <= 1e-9 * (1e-300 + nrm(data(gg))), "gf1 is not the gradient of the iterate"); }
        S::tCG_TR();
        const Manifold *M = this->Mani; double ne = pnorm(this->eta2); Vector He = hv(this->eta2);
        int st = this->tCGstatusSM; double ng = std::sqrt(M->Metric(this->x1, this->gf1, this->gf1));
        std::string det = str("status=%d |eta|=%.17g Delta=%.17g inner=%d", st, ne, D, (int)this->innerIter);
        bool lm = std::is_same<S, LRTRSR1>::value;
        if (!std::isfinite(ne)) { R.ok(gid + "/finite", !std::isfinite(ng) || lm, det); return; }
        R.ok(gid + "/delta-kept", this->Delta == D, det);
        double bt = !lm && this->innerIter > 3 ? 1e-3 : 1e-7; // the norm recurrence loses accuracy with ill-conditioned models
        R.ok(gid + "/inside", ne <= D * (1 + bt), det);
        double m = M->Metric(this->x1, this->eta2, this->gf1) + 0.5 * M->Metric(this->x1, this->eta2, He);
        double scale = std::fabs(M->Metric(this->x1, this->eta2, this->gf1)) + std::sqrt(std::fabs(M->Metric(this->x1, He, He))) * std::sqrt(M->Metric(this->x1, this->eta2, this->eta2));
        R.ok(gid + "/model", m <= 1e-9 * scale || (lm && lmbad()), det + str(" m=%.17g scale %.3g", m, scale));
        if (lm) { if (getenv("LMDBG") && !(ne <= D*(1+1e-6))) dbg(D, std::is_same<S, LRTRSR1>()); lmcheck(D, det); return; }
        bool onb = std::fabs(ne - D) <= bt * D;
        if (st == TRSM_EXCREGION || st == TRSM_NEGCURVTURE) { R.ok(gid + "/boundary", onb, det); bnd++; }
        Vector res = lc(M, this->x1, 1, He, 1, this->gf1), rp(res); M->Projection(this->x1, res, &rp); double nr = std::sqrt(M->Metric(this->x1, rp, rp)), p = std::pow(ng, (double)this->theta);
        if (st == TRSM_LCON || st == TRSM_SCON) {
            R.ok(gid + "/residual", nr <= ng * std::min(p, (double)this->kappa) * (1 + 1e-5) + 1e-9 * (ng + std::sqrt(M->Metric(this->x1, He, He))), det + str(" |g+Hn|=%.17g |g|=%.17g", nr, ng));
            if (std::fabs(p - this->kappa) > 1e-8) R.ok(gid + "/lcon", (st == TRSM_LCON) == (this->kappa < p), det);
            R.ok(gid + "/min-inner", this->innerIter >= this->Min_Inner_Iter || nr <= 1e-12 * ng, det);
        }
        if (st == TRSM_MAXITER) R.ok(gid + "/maxiter", this->innerIter == this->Max_Inner_Iter, det);
        R.ok(gid + "/status", st == TRSM_EXCREGION || st == TRSM_NEGCURVTURE || st == TRSM_LCON || st == TRSM_SCON || st == TRSM_MAXITER || st == TRSM_ERROR, det);
        Vector re(this->eta2); int rs = -1, ri = 0; double mg = 0; reference(re, rs, ri, mg, D);
        if (mg > 1e-5 && ri <= 6) { R.ok(gid + "/steihaug", rs == st && ri == this->innerIter && rel(M, this->x1, re, this->eta2) < 1e-5, det + str(" reference status %d iterations %d difference %.3g margin %.3g", rs, ri, rel(M, this->x1, re, this->eta2), mg)); }
        if (st == TRSM_ERROR) R.ok(gid + "/error-only-rounding", !(mg > 1e-5) || ri > 20, det + str(" margin %.3g", mg));
    }
    // limited-memory SR1: solution of the subproblem for B = gamma I + Psi M^{-1} Psi'
    bool lmB(MatV &B, Vd &g, Vd &e, double &cond) { return lmB_(B, g, e, cond, std::is_same<S, LRTRSR1>()); }
    bool lmB_(MatV &, Vd &, Vd &, double &, std::false_type) { return false; }
    bool lmB_(MatV &B, Vd &g, Vd &e, double &cond, std::true_type) {
        g = data(this->gf1); e = data(this->eta2); int n = (int)g.size(), k = this->Currentlength; double ga = this->gamma;
        std::vector<Vd> Ps(k), Sv(k), Yv(k); for (int i = 0; i < k; i++) { int j = (i + this->beginidx) % this->LengthSY; Sv[i] = data(this->S[j]); Yv[i] = data(this->Y[j]); Ps[i] = Yv[i]; for (int a = 0; a < n; a++) Ps[i][a] -= ga * Sv[i][a]; }
        MatV C(k, Vd(k)), W(k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) C[i][j] = dotv(Sv[std::max(i, j)], Yv[std::min(i, j)]) - ga * dotv(Sv[i], Sv[j]);
        if (noniso) { Vd pm = data(this->PMGQ); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) C[i][j] = pm[i + j * k]; } // inner products are kept, not recomputed, under a transport that is not isometric
        // the middle matrix: D + L + L' - gamma S'S, with L the strictly lower part of S'Y
        B.assign(n, Vd(n, 0)); for (int i = 0; i < n; i++) B[i][i] = ga; cond = 1;
        if (k) { MatV Ci(k, Vd(k)); double a = 0, b = 0; for (int j = 0; j < k; j++) { Vd u(k, 0), x; u[j] = 1; if (!solveDense(C, u, x)) { cond = 1e300; return true; } for (int i = 0; i < k; i++) Ci[i][j] = x[i]; }
            for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { a += C[i][j] * C[i][j]; b += Ci[i][j] * Ci[i][j]; } cond = std::sqrt(a * b); double sc = 0; for (int i = 0; i < k; i++) sc = std::max(sc, std::fabs(ga) * dotv(Sv[i], Sv[i]) + nrm(Sv[i]) * nrm(Yv[i])); cond = std::max(cond, sc * std::sqrt(b));
            MatV G(k, Vd(k)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) G[i][j] = dotv(Ps[i], Ps[j]); Vd ev = eigs(G); double mx = 0, mn = 1e300; for (double v : ev) { mx = std::max(mx, v); mn = std::min(mn, v); } cond *= mn > 0 ? mx / mn : 1e300;
            for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) B[p][q] += Ps[i][p] * Ci[i][j] * Ps[j][q]; }
        return true;
    }
    bool lmbad() { MatV B; Vd g, e; double c; if (!lmB(B, g, e, c)) return true; return c > 1e6 || !std::isfinite(c); }
    void lmcheck(double D, const std::string &det) {
        MatV B; Vd g, e; double c = 0; if (!lmB(B, g, e, c) || !(c < 1e6)) return;
        int n = (int)g.size(); Vd Be(n, 0); for (int i = 0; i < n; i++) Be[i] = dotv(B[i], e);
        bool sub = this->Mani->GetIntrDim() != n; // extrinsic: B acts as a multiple of the identity on the normal space
        Vd ev = eigs(B); double lo = *std::min_element(ev.begin(), ev.end()), hi = 0; for (double v : ev) hi = std::max(hi, std::fabs(v));
        double ne = nrm(e), ee = dotv(e, e); double sg = 0; for (int i = 0; i < n; i++) sg += -(Be[i] + g[i]) * e[i]; sg = ee > 0 ? sg / ee : 0;
        Vector H = hv(this->eta2); R.ok(gid + "/compact", dist(data(H), Be) <= 1e-7 * (nrm(Be) + nrm(g)) + 1e-9 * hi * ne, det + str(" cond %.3g |H|=%.3g |Be|=%.3g |g|=%.3g diff=%.3g k=%d", c, nrm(data(H)), nrm(Be), nrm(g), dist(data(H), Be), (int)kcur()));
        double kk = 0; for (int i = 0; i < n; i++) { double t = Be[i] + g[i] + sg * e[i]; kk += t * t; } kk = std::sqrt(kk);
        double tol = 1e-5 * (nrm(g) + hi * ne + std::fabs(sg) * ne); std::string d2 = det + str(" sigma=%.10g lambda_min=%.10g kkt=%.3g cond=%.3g n=%d k=%d", sg, lo, kk, c, n, (int)kcur());
        if (!(ne > 1e-8 * D) || !(hi * ne * 1e-7 < nrm(g))) return; // curvature so large that the step is rounding error
        R.ok(gid + "/kkt", kk <= tol, d2);
        R.ok(gid + "/sigma", sg >= -1e-5 * (hi + nrm(g) / ne), d2);
        if (!sub) R.ok(gid + "/psd", lo + sg >= -1e-4 * (hi + std::fabs(sg)), d2);
        bool onb = std::fabs(ne - D) <= 1e-4 * D;
        if (!sub && sg > 1e-4 * (hi + nrm(g) / ne)) R.ok(gid + "/complementary", onb, d2);
        int st = this->tCGstatusSM; if (st == TRSM_MIN) R.ok(gid + "/min-status", std::fabs(sg) <= 1e-5 * (hi + nrm(g) / ne), d2); else if (!sub) R.ok(gid + "/exc-status", onb || lo > -1e-9 * hi, d2);
    }
    void dbg(double, std::false_type) {}
    void dbg(double D, std::true_type) { MatV B; Vd g, e; double c = 0; lmB(B, g, e, c); Vd ev = eigs(B); fprintf(stderr, "DBG %s k=%d gamma=%.6g |g|=%.6g |e|=%.6g D=%.4g cond=%.3g eig:", gid.c_str(), (int)this->Currentlength, (double)this->gamma, nrm(g), nrm(e), D, c); for (double v : ev) fprintf(stderr, " %.8g", v); fprintf(stderr, " PMGQ:"); for (double v : data(this->PMGQ)) fprintf(stderr, " %.6g", v); fprintf(stderr, " st=%d\n", (int)this->tCGstatusSM); }
    int kcur() { return kc_(std::is_same<S, LRTRSR1>()); } int kc_(std::true_type) { return this->Currentlength; } int kc_(std::false_type) { return 0; }
    void UpdateData() override {
        Variable y(this->x1); long a = NR; this->Mani->Retraction(this->x1, this->eta2, &y); NR = a;
        R.ok(gid + "/x2", dist(data(y), data(this->x2)) <= 1e-12 * (1 + nrm(data(y))), "x2 is not the moved point");
        double v1 = val(this->Prob, this->x1), v2 = val(this->Prob, this->x2); R.ok(gid + "/f2", sameV(v2, this->f2, 1e-12)); R.ok(gid + "/f1", sameV(v1, this->f1, 1e-12));
        Vector He = hv(this->eta2); double l = this->Mani->Metric(this->x1, this->eta2, this->gf1), q = 0.5 * this->Mani->Metric(this->x1, this->eta2, He), m = l + q;
        double rho = (v1 - v2) / (-m), err = (1e-12 * (std::fabs(v1) + std::fabs(v2)) + std::fabs(rho) * 1e-11 * (std::fabs(l) + std::fabs(q))) / std::fabs(m);
        if (err < 1e-3) R.ok(gid + "/rho", std::fabs(rho - this->rho) <= 10 * err + 1e-9 * std::fabs(rho), str("ratio %.17g, recomputed %.17g", (double)this->rho, rho));
        oDelta = this->Delta; oRho = this->rho; oF1 = this->f1; oF2 = this->f2; oN = std::sqrt(this->Mani->Metric(this->x1, this->gf1, this->gf1)); oSt = this->tCGstatusSM; oX1 = data(this->x1); oX2 = data(this->x2); have = true;
        if (std::isnan(oRho)) have = false;
        S::UpdateData();
    }
    void Run() override { this->Delta = this->initial_Delta; S::Run(); transition(); }
};
template <class S> static void lm13(S &, Rng &, std::false_type) {}
template <class S> static void lm13(S &s, Rng &g, std::true_type) { int l[] = {1, 2, 4, 3}; s.LengthSY = l[g.i(4)]; s.LMrestart = g.i(2); }
template <class S> static void run13(const std::string &id, Case &c, Rng &g, bool prec) {
    gid = id; P13<S> s(c.P, &c.x0); s.Verbose = g.i(4) ? NOOUTPUT : ITERRESULT;
    if (prec) { Vd w(c.x0.Getlength()); for (auto &v : w) v = std::exp(g.n()); auto f = [w](const Vd &v) { Vd r(v); for (size_t i = 0; i < r.size(); i++) r[i] *= w[i]; return r; }; c.P->PC = f; s.pc = f; }
    double d[] = {1, 100, 0.1, 1e-3}; s.initial_Delta = d[g.i(4)]; double mx[] = {1e4, 2, 0.5}; s.maximum_Delta = mx[g.i(3)]; if (s.initial_Delta > s.maximum_Delta) s.initial_Delta = s.maximum_Delta; s.minimum_Delta = g.i(3) ? 1e-15 : 1e-4;
    double ar[] = {0.1, 0.01, 0.24}; s.Acceptence_Rho = ar[g.i(3)]; double st[] = {0.25, 0.5, 0.1}; s.Shrinked_tau = st[g.i(3)]; double mt[] = {2, 3, 1.1}; s.Magnified_tau = mt[g.i(3)];
    double th[] = {1, 0.1, 0.5, 0}; s.theta = th[g.i(4)]; double ka[] = {0.1, 0.5, 0.9, 0.01}; s.kappa = ka[g.i(4)]; int mi[] = {1000, 3, 1, 20}; s.Max_Inner_Iter = mi[g.i(4)]; if (g.i(4) == 0) s.Min_Inner_Iter = std::min<int>(2, s.Max_Inner_Iter);
    s.Max_Iteration = 25; s.Tolerance = 1e-8; s.Accuracy = g.i(3) ? 1e-6 : 1e-1; lm13(s, g, std::is_same<S, LRTRSR1>()); s.noniso = c.name == "Stiefel(4,2)2" || c.name == "Stiefel(4,2)4";
    s.Run(); R.ok(id + "/ran", true);
}
template <class S> static void loop13(const char *nm, int reps) {
    for (int k = 0; k < nCases(); k++) for (int pr = 0; pr < (k < 2 && !std::is_same<S, LRTRSR1>::value ? 2 : 1); pr++) {
        std::string base = str("%s/%d%s", nm, k, pr ? "+prec" : ""); if (!R.only.empty() && R.only.compare(0, std::min(base.size(), R.only.size()), base.substr(0, R.only.size()))) continue;
        isolated(base, [&]() { for (int r = 0; r < reps; r++) { Rng g(R.seed * 104729 + r * 59 + k * 11 + pr * 5); Case c = mkCase(k, g); run13<S>(str("%s/%s%s|%d", nm, c.name.c_str(), pr ? "+prec" : "", r), c, g, pr); } }, 300); }
}
void prop_C13() { int q = R.thorough ? 80 : 20; loop13<RTRNewton>("RTRNewton", q); loop13<RTRSD>("RTRSD", q); loop13<RTRSR1>("RTRSR1", q); loop13<LRTRSR1>("LRTRSR1", 2 * q); }
