#include "solv.h"
// C15: quasi-Newton and conjugate-gradient updates against their formulas
static std::string gid;
static const double EPSM = 2.220446049250313e-16;
static Vector tr(const Manifold *M, const Variable &x, const Vector &eta, const Variable &y, const Vector &v) { Vector r(v); M->VectorTransport(x, eta, y, v, &r); return r; }
static Vector app(const Manifold *M, const Variable &x, const LinearOPE &H, const Vector &v) { Vector r(v); M->LinearOPEEta(x, H, v, &r); return r; }
static double nm(const Manifold *M, const Variable &x, const Vector &v) { return std::sqrt(std::fabs(M->Metric(x, v, v))); }
static std::vector<Vector> tests(const Manifold *M, const Variable &x, const Vector &s, const Vector &y) { Rng g(4711); std::vector<Vector> t{s, y}; for (int i = 0; i < 3; i++) { Vector w = randTan(M, x, g, 1); t.push_back(w); } return t; }
static void cmpv(const std::string &what, const Manifold *M, const Variable &x, const Vector &a, const Vector &b, double scale, double tol, const std::string &det) {
    Vector d = lc(M, x, 1, a, -1, b); double e = nm(M, x, d);
    R.ok(gid + what, e <= tol * scale || !std::isfinite(scale) || scale > 1e150, det + str(" difference %.3g scale %.3g", e, scale)); }
static bool flip(double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)); } // comparison too close to call

static bool same(const Vd &a, const Vd &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false; return true; }
// full inverse-Hessian family: RBFGS, RBroydenFamily (phi=1), RWRBFGS
template <class S> struct PB : public S {
    PB(const Problem *p, const Variable *x) : S(p, x) {} long upd = 0, skp = 0; double past = 0;
    void UpdateData() override {
        const Manifold *M = this->Mani; const bool rw = std::is_same<S, RWRBFGS>::value; const Variable x1(this->x1), x2(this->x2);
        LinearOPE H0(this->H); Vector gf1(this->gf1), gf2(this->gf2), eta1(this->eta1), eta2(this->eta2); double pngf2 = this->ngf2, sc = nrm(data(H0)); past = std::max(past, sc);
        // direction: minus the operator applied to the gradient, unless it was reset to steepest descent
        Vector dir = scaled(M, x1, -1, app(M, x1, H0, gf1));
        cmpv("/dir", M, x1, eta1, dir, 1e-300 + nm(M, x1, dir), 1e-9, "search direction is not -H grad");
        S::UpdateData();
        const Variable &xb = rw ? x1 : x2; Vector s(eta2), y(eta2);
        if (rw) { Vector c(gf2); M->coTangentVector(x1, eta2, x2, gf2, &c); y = lc(M, x1, 1, c, -1, gf1); }
        else { s = tr(M, x1, eta2, x2, eta2); y = lc(M, x2, 1 / M->Beta(x1, eta2), gf2, -1, tr(M, x1, eta2, x2, gf1)); }
        double sy = met(M, xb, s, y), ss = met(M, xb, s, s), yy = met(M, xb, y, y);
        LinearOPE Hs(H0); bool resc = this->isconvex && this->iter == 1 && sy > 0; if (resc) { Hs.ScaledIdOPE(sy / yy); sc = sy / yy * std::sqrt((double)data(eta1).size()); }
        double thr = this->nu * std::pow(pngf2, (double)this->mu), ratio = sy / ss; bool c1 = ratio >= thr, c2 = pngf2 / this->ngf0 < 1e-3, c3 = ss > EPSM && sy > EPSM, want = c1 && (c2 || c3);
        std::string det = str("sy=%.6g ss=%.6g yy=%.6g updated=%d iter=%d |H|=%.3g", sy, ss, yy, (int)this->isupdated, (int)this->iter, sc);
        if (!std::isfinite(sy) || !std::isfinite(ss)) return;
        if (std::fabs(sy) > 1e-10 * std::sqrt(ss * yy) && !flip(ratio, thr) && !flip(ss, EPSM) && !flip(sy, EPSM) && !flip(pngf2 / this->ngf0, 1e-3)) R.ok(gid + "/condition", want == this->isupdated, det + str(" threshold %.6g", thr));
        this->isupdated ? upd++ : skp++;
        double rho = 1 / sy, amp = 1 + std::fabs(rho) * std::sqrt(ss * yy);
        if (!(amp <= 1e6)) return; // rank-one updates dominated by rounding
        LinearOPE Ht(Hs); auto upd1 = [&](const std::function<Vector(const Vector &)> &Hb, const Variable &x, const Vector &v) {
            if (!this->isupdated) return Hb(v);
            Vector w = lc(M, x, 1, v, -rho * met(M, x, s, v), y), u = Hb(w); u = lc(M, x, 1, u, -rho * met(M, x, y, u), s); return lc(M, x, 1, u, rho * met(M, x, s, v), s); };
        if (!rw) M->TranHInvTran(x1, eta2, x2, Hs, &Ht);
        for (auto &v : tests(M, x2, s, y)) {
            Vector ex(v);
            if (!rw) ex = upd1([&](const Vector &w) { return app(M, x2, Ht, w); }, x2, v);
            else { // update at x1, then transported: H2 = T H1+ T^{-1}
                LinearOPE H1(Hs); int n = (int)data(eta1).size(); double *h = H1.ObtainWriteEntireData();
                if (M->GetIsIntrinsic() || std::string(M->GetName()) == "Euclidean") { for (int j = 0; j < n; j++) { Vd e(n, 0); e[j] = 1; Vector ej(eta1); fill(ej, e); Vd cl = data(upd1([&](const Vector &w) { return app(M, x1, Hs, w); }, x1, ej)); for (int i = 0; i < n; i++) h[i + j * n] = cl[i]; } M->TranHInvTran(x1, eta2, x2, H1, &H1); ex = app(M, x2, H1, v); }
                else continue; }
            double scale = nm(M, x2, v) * (sc * amp * amp + std::fabs(rho) * ss + 1e-6 * past * amp * amp);
            cmpv(this->isupdated ? "/formula" : "/kept", M, x2, app(M, x2, this->H, v), ex, scale, 1e-8, det);
        }
        if (this->isupdated && !rw) cmpv("/secant", M, x2, app(M, x2, this->H, y), s, std::sqrt(ss) + (sc + 1e-5 * past) * std::sqrt(yy) * amp * amp, 1e-9, det);
        auto T = tests(M, x2, rw ? tr(M, x1, eta2, x2, s) : s, rw ? tr(M, x1, eta2, x2, y) : y);
        for (size_t i = 0; i < T.size(); i++) { Vector hi = app(M, x2, this->H, T[i]); double n = nm(M, x2, T[i]);
            double q = met(M, x2, T[i], hi), sb = sc * amp * amp + std::fabs(rho) * ss + 1e-6 * past * amp * amp, scl = n * n * sb; if (this->isupdated || pd) R.ok(gid + "/positive", !pd || q >= -1e-9 * scl, det + str(" <v,Hv>=%.6g", q));
            for (size_t j = 0; j < i; j++) { double a = met(M, x2, T[j], hi), b = met(M, x2, T[i], app(M, x2, this->H, T[j])), m = nm(M, x2, T[j]); R.ok(gid + "/symmetric", std::fabs(a - b) <= 1e-8 * n * m * sb, det + str(" %.17g %.17g", a, b)); } }
    }
    bool pd = true;
};
// limited memory: own list of pairs, own recursion
template <class S> struct PL : public S {
    std::vector<Vector> Sl, Yl; std::vector<double> rl; double ga = 1; bool first = true, noniso = false; long upd = 0, skp = 0;
    PL(const Problem *p, const Variable *x) : S(p, x) {}
    static const bool sub = std::is_same<S, LRBFGSSub>::value;
    Vector rec(const Variable &x, int k, const Vector &v) { const Manifold *M = this->Mani;
        if (k == 0) { Vector z(v); if (!sub) { Vector p(v); this->Prob->PreConditioner(x, v, &p); z = p; } return scaled(M, x, ga, z); }
        const Vector &s = Sl[k - 1], &y = Yl[k - 1]; double r = rl[k - 1]; Vector w = lc(M, x, 1, v, -r * met(M, x, s, v), y), u = rec(x, k - 1, w);
        return lc(M, x, 1, u, r * (met(M, x, s, v) - met(M, x, y, u)), s); }
    double ampl(const Variable &x) { double a = 1; for (size_t i = 0; i < Sl.size(); i++) a *= std::pow(1 + std::fabs(rl[i]) * nm(this->Mani, x, Sl[i]) * nm(this->Mani, x, Yl[i]), 2); return a; }
    template <class Q> Vector &HV(Q &q, const Vector &v, Vector *r, std::true_type) { return q.HvLRBFGSSub(v, r); }
    template <class Q> Vector &HV(Q &q, const Vector &v, Vector *r, std::false_type) { return q.HvLRBFGS(v, r); }
    template <class Q> bool cond(Q &q, double sy, double ss, double pn, bool &close, std::true_type) { close = flip(sy / ss, q.lambdaLower); return sy / ss >= q.lambdaLower; }
    template <class Q> bool cond(Q &q, double sy, double ss, double pn, bool &close, std::false_type) { double t = q.nu * std::pow(pn, (double)q.mu); close = flip(sy / ss, t) || flip(ss, EPSM) || flip(sy, EPSM) || flip(pn / q.ngf0, 1e-3); return sy / ss >= t && (pn / q.ngf0 < 1e-3 || (ss > EPSM && sy > EPSM)); }
    template <class Q> double lam(Q &q, std::true_type) { return 1 / q.lambdaUpper; } template <class Q> double lam(Q &, std::false_type) { return 0; }
    template <class Q> bool rst(Q &, std::true_type) { return false; } template <class Q> bool rst(Q &q, std::false_type) { return q.LMrestart; }
    template <class Q> double prevn(Q &, std::true_type) { return 0; } template <class Q> double prevn(Q &q, std::false_type) { return q.ngf2; }
    template <class Q> void dir(Q &q, std::false_type) { const Manifold *M = q.Mani; Vector d = scaled(M, q.x1, -1, rec(q.x1, (int)Sl.size(), q.gf1)); double a = ampl(q.x1); if (a < 1e7) cmpv("/dir", M, q.x1, q.eta1, d, nm(M, q.x1, q.gf1) * (std::fabs(ga) + 1) * a, 1e-10, str("pairs %d gamma %.6g", (int)Sl.size(), ga)); }
    template <class Q> void dir(Q &, std::true_type) {}
    typedef std::integral_constant<bool, std::is_same<S, LRBFGSSub>::value> B;
    void UpdateData() override {
        const Manifold *M = this->Mani; const Variable x1(this->x1), x2(this->x2); Vector gf1(this->gf1), gf2(this->gf2), eta2(this->eta2); double pn = prevn(*this, B());
        if (first) { ga = this->gamma; R.ok(gid + "/gamma0", ga == 1); first = false; }
        dir(*this, B());
        S::UpdateData();
        Vector s = tr(M, x1, eta2, x2, eta2), y = lc(M, x2, 1 / M->Beta(x1, eta2), gf2, -1, tr(M, x1, eta2, x2, gf1)), Py(y);
        if (!sub) this->Prob->PreConditioner(x2, y, &Py);
        double yy = met(M, x2, y, Py), sy = met(M, x2, s, y), big = nm(M, x2, s) * nm(M, x2, y);
        if (sub) { double t = std::max(0.0, lam(*this, B()) - sy / met(M, x2, y, y)); s = lc(M, x2, 1, s, t, y); sy = met(M, x2, s, y); }
        double ss = met(M, x2, s, s); bool close = false, want = cond(*this, sy, ss, pn, close, B());
        std::string det = str("sy=%.6g ss=%.6g yy=%.6g updated=%d pairs=%d/%d", sy, ss, yy, (int)this->isupdated, (int)Sl.size(), (int)this->LengthSY);
        if (!std::isfinite(sy) || !std::isfinite(ss)) return;
        if (!close && std::fabs(sy) > 1e-10 * big) R.ok(gid + "/condition", want == (bool)this->isupdated, det);
        for (size_t i = 0; i < Sl.size(); i++) { Sl[i] = tr(M, x1, eta2, x2, Sl[i]); Yl[i] = tr(M, x1, eta2, x2, Yl[i]); }
        if (this->isupdated) { upd++; ga = sy / yy; R.ok(gid + "/gamma", std::fabs(ga - this->gamma) <= 1e-9 * std::fabs(ga) * (1 + big / std::fabs(sy)), det + str(" gamma %.17g expected %.17g", (double)this->gamma, ga)); ga = this->gamma;
            int m = this->LengthSY; if (rst(*this, B()) && (int)Sl.size() >= m) { Sl.clear(); Yl.clear(); rl.clear(); }
            if (m > 0) { Sl.push_back(s); Yl.push_back(y); rl.push_back(1 / sy); if ((int)Sl.size() > m) { Sl.erase(Sl.begin()); Yl.erase(Yl.begin()); rl.erase(rl.begin()); } } }
        else { skp++; R.ok(gid + "/gamma-kept", ga == this->gamma); if (sub) { Sl.clear(); Yl.clear(); rl.clear(); } }
        R.ok(gid + "/pairs", (int)this->Currentlength == (int)Sl.size(), det + str(" stored %d", (int)this->Currentlength));
        double a = ampl(x2); if (a > 1e7) return;
        // the solver's operator works at x1: evaluate it there after the switch of the iterates
        Variable sv(this->x1); this->x1 = x2; integer keep = this->nH;
        for (auto &v : tests(M, x2, s, y)) { Vector o(v); HV(*this, v, &o, B()); cmpv("/recursion", M, x2, o, rec(x2, (int)Sl.size(), v), nm(M, x2, v) * (std::fabs(ga) + 1) * a, 1e-9, det); 
            double q = met(M, x2, v, o); if (pd && !noniso) R.ok(gid + "/positive", q >= -1e-9 * nm(M, x2, v) * nm(M, x2, v) * (std::fabs(ga) + 1) * a, det + str(" %.6g", q)); }
        if (this->isupdated && this->LengthSY > 0) { Vector o(y); HV(*this, y, &o, B()); cmpv("/secant", M, x2, o, s, nm(M, x2, s) + nm(M, x2, y) * (std::fabs(ga) + 1) * a, 1e-9, det); }
        this->x1 = sv; this->nH = keep;
    }
    bool pd = true;
};
struct PCG : public RCG {
    PCG(const Problem *p, const Variable *x) : RCG(p, x) {}
    long restarts = 0, full = 0; bool expect = false; Vd ed; double esc = 0;
    Vector pc(const Variable &x, const Vector &v) { Vector r(v); Prob->PreConditioner(x, v, &r); return r; }
    void GetSearchDir() override {
        const Manifold *M = Mani; double lim = -std::sqrt(EPSM); Vector e(eta1); bool it0 = iter == 0; double sl = it0 ? 0 : met(M, x1, eta1, gf1) / ngf1 / ngf1;
        RCG::GetSearchDir();
        if (it0 || (!flip(sl, lim) && sl >= lim)) { e = scaled(M, x1, -1, pc(x1, gf1)); if (met(M, x1, e, gf1) / ngf1 / ngf1 >= lim) e = scaled(M, x1, -1, gf1); }
        if (it0 || !flip(sl, lim)) cmpv("/restart", M, x1, eta1, e, 1e-300 + nm(M, x1, e), 1e-12, str("iter %d slope %.6g", (int)iter, sl));
        double d = met(M, x1, eta1, gf1); R.ok(gid + "/descent", d < 0 || !(ngf1 > 0), str("slope %.6g", d));
    }
    void UpdateData() override {
        const Manifold *M = Mani; const Variable a(x1), b(x2); Vector g1(gf1), g2(gf2), e1(eta1), e2(eta2);
        Vector P1 = pc(a, g1), P2 = pc(b, g2), T1 = tr(M, a, e2, b, g1), Te = tr(M, a, e2, b, e1), y = lc(M, b, 1, g2, -1, T1);
        double n1 = met(M, a, g1, P1), n2 = met(M, b, g2, P2), yd = met(M, b, y, Te), yP = met(M, b, y, P2), sg = 0, q = std::fabs(met(M, b, g2, T1)) / met(M, a, g1, g1);
        switch (RCGmethod) { case FLETCHER_REEVES: sg = n2 / n1; break; case POLAK_RIBIERE_MOD: sg = std::max(0.0, yP / n1); break; case HESTENES_STIEFEL: sg = yP / yd; break;
            case FR_PR: { double f = n2 / n1, p = yP / n1; sg = p < -f ? -f : (p > f ? f : p); break; } case DAI_YUAN: sg = n2 / yd; break;
            case HAGER_ZHANG: sg = (yP - 2 * met(M, b, y, y) / yd * met(M, b, Te, P2)) / yd; break; default: break; }
        bool rs = q > 0.1; if (rs) { sg = 0; restarts++; } else full++;
        RCG::UpdateData();
        double cond = 1 + nm(M, b, y) * nm(M, b, Te) / std::fabs(yd); bool uses = RCGmethod == HESTENES_STIEFEL || RCGmethod == DAI_YUAN || RCGmethod == HAGER_ZHANG;
        if (flip(q, 0.1) || !std::isfinite(sg) || (uses && cond > 1e5)) return;
        std::string det = str("method %d sigma %.10g computed %.10g restart %d", (int)RCGmethod, sg, (double)sigma, rs);
        double ssc = std::fabs(sg) + (rs ? 0 : (nm(M, b, y) * nm(M, b, P2)) / (uses ? std::fabs(yd) : n1)); R.ok(gid + "/sigma", std::fabs(sg - sigma) <= 1e-9 * cond * cond * ssc, det);
        Vector ex = lc(M, b, -1, P2, sigma, Te); if (sigma == 0) ex = scaled(M, b, -1, P2); cmpv("/dir", M, b, eta1, ex, nm(M, b, P2) + std::fabs(sigma) * nm(M, b, Te), 1e-11, det);
    }
};
struct PN : public RNewton {
    PN(const Problem *p, const Variable *x) : RNewton(p, x) {}
    Vector hv(const Vector &e) { Variable z(x1); z.RemoveAllFromFields(); long a = NF, b = NG, c = NH; Prob->f(z); Vector gg = Mani->GetEMPTY(), r = Mani->GetEMPTY(); Prob->Grad(z, &gg); Prob->HessianEta(z, e, &r); NF = a; NG = b; NH = c; return r; }
    void GetSearchDir() override {
        RNewton::GetSearchDir(); const Manifold *M = Mani; double ng = nm(M, x1, gf1); if (!std::isfinite(nm(M, x1, eta1)) || !(ng > 0)) return;
        Vector He = hv(eta1), r = lc(M, x1, 1, He, 1, gf1), rp(r); M->Projection(x1, r, &rp); double nr = nm(M, x1, rp), p = std::pow(ng, (double)theta);
        std::string det = str("status %d inner %d |r|=%.6g |g|=%.6g", (int)tCGLSSMstatus, (int)innerIter, nr, ng);
        if (tCGLSSMstatus == LSSM_LCON || tCGLSSMstatus == LSSM_SCON) { R.ok(gid + "/residual", nr <= ng * std::min(p, (double)kappa) * (1 + 1e-5) + 1e-8 * (ng + nm(M, x1, He)), det); if (!flip(p, kappa)) R.ok(gid + "/lcon", (tCGLSSMstatus == LSSM_LCON) == (kappa < p), det); }
        if (tCGLSSMstatus == LSSM_MAXITER) R.ok(gid + "/maxiter", innerIter == Max_Inner_Iter, det);
        double d = met(M, x1, eta1, gf1); R.ok(gid + "/descent", d < 0 || ng < 1e-7, det + str(" slope %.6g", d));
        if (tCGLSSMstatus == LSSM_NEGCURVTURE && innerIter == 0) { Vector z(gf1); Prob->PreConditioner(x1, gf1, &z); cmpv("/negcurv", M, x1, eta1, scaled(M, x1, -1, z), nm(M, x1, z), 1e-12, det); }
    }
};
struct PSR : public RTRSR1 {
    PSR(const Problem *p, const Variable *x) : RTRSR1(p, x) {} long upd = 0, skp = 0; double past = 0; bool have = false; LinearOPE Bx;
    void UpdateData() override {
        const Manifold *M = Mani; Vector g1(gf1), e2(eta2); LinearOPE B0(B); double pn = ngf2, sc = nrm(data(B0));
        RTRSR1::UpdateData(); have = true; Bx = B;
        Vector iv(gf2); M->InverseVectorTransport(x1, e2, x2, gf2, &iv); Vector y = lc(M, x1, 1, iv, -1, g1), s(e2); double sy = met(M, x1, s, y), yy = met(M, x1, y, y), ss = met(M, x1, s, s);
        if (!std::isfinite(sy) || !std::isfinite(yy)) return;
        if (iter == 1) { B0.ScaledIdOPE(yy / sy); sc = std::fabs(yy / sy) * std::sqrt((double)data(e2).size()); }
        Vector z = lc(M, x1, 1, y, -1, app(M, x1, B0, s)); double den = met(M, x1, s, z), zz = met(M, x1, z, z), amp = zz / std::fabs(den);
        bool want = den * den >= EPSM * ss * zz && (zz >= EPSM || pn / ngf0 < 1e-3); std::string det = str("den=%.6g zz=%.6g ss=%.6g updated=%d iter=%d |B|=%.3g", den, zz, ss, (int)isupdated, (int)iter, sc);
        past = std::max(past, sc); det += str(" past %.3g", past);
        double zerr = 1e-13 * (std::sqrt(yy) + sc * std::sqrt(ss)); bool clear = std::sqrt(zz) > 1e3 * zerr && std::fabs(den) > 1e3 * zerr * std::sqrt(ss);
        if (clear && std::fabs(den * den / (EPSM * ss * zz) - 1) > 1e-2 && std::fabs(zz / EPSM - 1) > 1e-2 && !flip(pn / ngf0, 1e-3)) R.ok(gid + "/condition", want == isupdated, det);
        isupdated ? upd++ : skp++;
        if (isupdated && (std::sqrt(zz) < 1e6 * zerr || std::fabs(den) < 1e6 * zerr * std::sqrt(ss))) return;
        for (auto &v : tests(M, x1, s, y)) { Vector ex = app(M, x1, B0, v); if (isupdated) ex = lc(M, x1, 1, ex, met(M, x1, z, v) / den, z);
            cmpv(isupdated ? "/formula" : "/kept", M, x1, app(M, x1, B, v), ex, nm(M, x1, v) * (sc + (isupdated ? amp : 0) + 1e-9 * past), 1e-5, det);
            Vector h = app(M, x1, B, v); for (auto &w : tests(M, x1, s, y)) { double a = met(M, x1, h, w), b = met(M, x1, v, app(M, x1, B, w)); R.ok(gid + "/symmetric", std::fabs(a - b) <= 1e-8 * nm(M, x1, v) * nm(M, x1, w) * (sc + (isupdated ? amp : 0) + 1e-8 * past), det + str(" %.17g %.17g", a, b)); } }
        if (isupdated) cmpv("/secant", M, x1, app(M, x1, B, s), y, std::sqrt(yy) + sc * std::sqrt(ss) + amp * std::sqrt(ss), 1e-8, det);
    }
    void Acceptence() override { LinearOPE b(B), e(B); Mani->TranHInvTran(x1, eta2, x2, b, &e); RTRSR1::Acceptence(); R.ok(gid + "/transported", same(data(B), data(e))); Bx = B; }
    void tCG_TR() override { if (have) R.ok(gid + "/kept-between", same(data(B), data(Bx)), "the approximation changed outside the update"); RTRSR1::tCG_TR(); }
};
struct PLS : public LRTRSR1 { // own SR1 recursion from the pair history (isometric transports)
    PLS(const Problem *p, const Variable *x) : LRTRSR1(p, x) {} std::vector<Vector> Sl, Yl; double ga = 1; bool noniso = false; long upd = 0, skp = 0;
    bool recur(std::vector<Vector> &Z, Vd &den, double &amp) { const Manifold *M = Mani; Z.clear(); den.clear(); amp = 1;
        for (size_t k = 0; k < Sl.size(); k++) { Vector b = scaled(M, x1, ga, Sl[k]); for (size_t i = 0; i < k; i++) b = lc(M, x1, 1, b, met(M, x1, Z[i], Sl[k]) / den[i], Z[i]);
            Vector z = lc(M, x1, 1, Yl[k], -1, b); double d = met(M, x1, z, Sl[k]); double rel = std::fabs(d) / (1e-300 + nm(M, x1, Sl[k]) * (nm(M, x1, Yl[k]) + nm(M, x1, b))); amp /= std::min(1.0, rel); Z.push_back(z); den.push_back(d); if (!(rel > 1e-4)) return false; }
        return true; }
    void tCG_TR() override {
        const Manifold *M = Mani; R.ok(gid + "/gamma-same", ga == gamma, str("%.17g %.17g", ga, (double)gamma)); LRTRSR1::tCG_TR(); if (noniso) return;
        R.ok(gid + "/pairs", (int)Sl.size() == (int)Currentlength, str("%d stored, %d expected", (int)Currentlength, (int)Sl.size())); if ((int)Sl.size() != (int)Currentlength) return;
        std::vector<Vector> Z; Vd den; double amp; if (!recur(Z, den, amp) || amp > 1e6) return;
        for (auto &v : tests(M, x1, gf1, eta2)) { Vector e = scaled(M, x1, ga, v); double sc = nm(M, x1, e); for (size_t i = 0; i < Z.size(); i++) { double c = met(M, x1, Z[i], v) / den[i]; e = lc(M, x1, 1, e, c, Z[i]); sc += std::fabs(c) * nm(M, x1, Z[i]); }
            Vector o(v); HvLRTRSR1(v, &o); cmpv("/compact", M, x1, o, e, sc, 1e-11 * amp * amp + 1e-8, str("pairs %d gamma %.6g amplification %.3g", (int)Sl.size(), ga, amp)); }
    }
    void UpdateData() override {
        const Manifold *M = Mani; Vector g1(gf1), e2(eta2); double pn = ngf2, g0 = gamma; bool pu = isupdated; Vector He(Heta2); integer it = iter;
        LRTRSR1::UpdateData();
        Vector iv(gf2); M->InverseVectorTransport(x1, e2, x2, gf2, &iv); Vector y = lc(M, x1, 1, iv, -1, g1), s(e2); double sy = met(M, x1, s, y), yy = met(M, x1, y, y), ss = met(M, x1, s, s); double ge = g0;
        if (it == 0) { ge = yy / sy; He = scaled(M, x1, ge, s); }
        Vector z = lc(M, x1, 1, y, -1, He); double den = met(M, x1, s, z), zz = met(M, x1, z, z); bool want = den * den >= EPSM * ss * zz && (zz >= EPSM || pn / ngf0 < 1e-3) && (it != 0 || std::fabs(ge - sy / ss) > std::sqrt(EPSM));
        std::string det = str("den=%.6g zz=%.6g updated=%d iter=%d gamma=%.6g", den, zz, (int)isupdated, (int)it, (double)gamma);
        double zerr = 1e-12 * (std::sqrt(yy) + nm(M, x1, He)); bool clear = std::isfinite(zz) && std::sqrt(zz) > 1e3 * zerr && std::fabs(den) > 1e3 * zerr * std::sqrt(ss);
        if (clear && std::fabs(den * den / (EPSM * ss * zz) - 1) > 1e-2 && std::fabs(zz / EPSM - 1) > 1e-2 && !flip(pn / ngf0, 1e-3) && (it || std::fabs(std::fabs(ge - sy / ss) / std::sqrt(EPSM) - 1) > 1e-2)) R.ok(gid + "/condition", want == (bool)isupdated, det);
        if (isupdated) { upd++; if (pu) ge = yy / sy; if (LMrestart && (int)Sl.size() >= LengthSY) { Sl.clear(); Yl.clear(); } if (LengthSY > 0) { Sl.push_back(s); Yl.push_back(y); if ((int)Sl.size() > LengthSY) { Sl.erase(Sl.begin()); Yl.erase(Yl.begin()); } } } else skp++;
        if (std::isfinite(ge)) R.ok(gid + "/gamma", std::fabs(ge - gamma) <= 1e-9 * std::fabs(ge) * (1 + std::sqrt(ss * yy) / std::fabs(sy)), det + str(" expected %.17g", ge)); ga = gamma;
    }
    void Acceptence() override { for (size_t i = 0; i < Sl.size(); i++) { Sl[i] = tr(Mani, x1, eta2, x2, Sl[i]); Yl[i] = tr(Mani, x1, eta2, x2, Yl[i]); } LRTRSR1::Acceptence(); }
};
struct PBS : public RBFGSSub {
    PBS(const Problem *p, const Variable *x) : RBFGSSub(p, x) {} long upd = 0, skp = 0; double past = 0;
    void UpdateData() override {
        const Manifold *M = Mani; const Variable a(x1), b(x2); Vector g1(gf1), g2(gf2), e2(eta2); LinearOPE H0(H); double sc = nrm(data(H0)); past = std::max(past, sc); // rounding errors of earlier, larger approximations stay
        RBFGSSub::UpdateData();
        Vector s = tr(M, a, e2, b, e2), y = lc(M, b, 1 / M->Beta(a, e2), g2, -1, tr(M, a, e2, b, g1)); double yy = met(M, b, y, y), sy = met(M, b, s, y), big = nm(M, b, s) * nm(M, b, y), bign = big;
        if (!std::isfinite(sy / yy)) return;
        s = lc(M, b, 1, s, std::max(0.0, 1 / (double)lambdaUpper - sy / yy), y); sy = met(M, b, s, y); double ss = met(M, b, s, s);
        std::string det = str("sy=%.6g ss=%.6g yy=%.6g updated=%d iter=%d", sy, ss, yy, (int)isupdated, (int)iter);
        R.ok(gid + "/bounded", sy / yy >= (1 - 1e-6) / (double)lambdaUpper - 1e-12 * big / yy, det);
        if (!flip(sy / ss, lambdaLower) && std::fabs(sy) > 1e-9 * big) R.ok(gid + "/condition", (sy / ss > lambdaLower) == (bool)isupdated, det);
        Vd I; for (auto &v : tests(M, b, s, y)) { Vector o = app(M, b, H, v);
            if (!isupdated) { cmpv("/reset", M, b, o, v, nm(M, b, v), 1e-14, det); continue; }
            LinearOPE Ht(H0); if (iter == 1 && sy > 0) { Ht.ScaledIdOPE(sy / yy); sc = sy / yy; } M->TranHInvTran(a, e2, b, Ht, &Ht); double rho = 1 / sy, amp = 1 + std::fabs(rho) * std::sqrt(ss * yy); if (amp > 1e6) return;
            Vector w = lc(M, b, 1, v, -rho * met(M, b, s, v), y), u = app(M, b, Ht, w); u = lc(M, b, 1, u, rho * (met(M, b, s, v) - met(M, b, y, u)), s); double scl = sc * amp * amp + rho * ss + 1e-6 * past * amp * amp; cmpv("/formula", M, b, o, u, nm(M, b, v) * scl, 1e-8, det);
            R.ok(gid + "/positive", met(M, b, v, o) >= -1e-9 * nm(M, b, v) * nm(M, b, v) * scl, det); }
        isupdated ? upd++ : skp++;
        if (isupdated) { double amp = 1 + std::sqrt(ss * yy) / std::fabs(sy); cmpv("/secant", M, b, app(M, b, H, y), s, std::sqrt(ss) + (sc + 1e-5 * past) * std::sqrt(yy) * amp * amp, 1e-9, det); }
    }
};
static void ns(Case &c, Rng &g) {
    int n = (int)c.x0.Getlength(), m = n + 2; Mx<double> A(m, n); Vd b(m); for (auto &v : A.a) v = g.n(); for (auto &v : b) v = g.n();
    auto vals = [=](const Vd &x) { Vd r(m); for (int i = 0; i < m; i++) { double t = b[i]; for (int j = 0; j < n; j++) t += A(i, j) * x[j]; r[i] = t; } return r; };
    c.P->F = [=](const Vd &x) { Vd r = vals(x); double s = 0; for (double v : x) s += v * v; return *std::max_element(r.begin(), r.end()) + 0.15 * s; };
    c.P->G = [=](const Vd &x) { Vd r = vals(x); int k = (int)(std::max_element(r.begin(), r.end()) - r.begin()); Vd o(n); for (int j = 0; j < n; j++) o[j] = A(k, j) + 0.3 * x[j]; return o; };
}
static void diagPC(Case &c, Rng &g) { Vd w(c.x0.Getlength()); for (auto &v : w) v = std::exp(g.n()); c.P->PC = [w](const Vd &v) { Vd r(v); for (size_t i = 0; i < r.size(); i++) r[i] *= w[i]; return r; }; }
template <class S> static void base15(S &s, Rng &g) { s.Verbose = NOOUTPUT; s.Max_Iteration = 22; s.Tolerance = 1e-7; }
template <class S> static void ls15(S &s, Rng &g) { base15(s, g); LSAlgoSM a[] = {LSSM_WOLFE, LSSM_ARMIJO, LSSM_STRONGWOLFE, LSSM_ARMIJO}; s.LineSearch_LS = a[g.i(4)]; s.Accuracy = g.i(3) ? 0 : 1e-2; s.InitSteptype = (InitStepsizeSetSM)g.i(4); }
template <class S> static void qn15(S &s, Rng &g) { double nu[] = {1e-4, 0, 0.3, 1e-2}; s.nu = nu[g.i(4)]; double mu[] = {1, 0, 2}; s.mu = mu[g.i(3)]; s.isconvex = g.i(2); }
static void go(const std::string &kind, Case &c, Rng &g, int k) {
    bool noniso = c.name == "Stiefel(4,2)2" || c.name == "Stiefel(4,2)4"; bool prec = k < 2 && g.i(2);
    if (kind == "RBFGS") { PB<RBFGS> s(c.P, &c.x0); ls15(s, g); qn15(s, g); s.pd = !noniso; s.Run(); R.ok(gid + "/ran", true); }
    else if (kind == "RBroyden") { PB<RBroydenFamily> s(c.P, &c.x0); ls15(s, g); qn15(s, g); s.pd = !noniso; s.Run(); }
    else if (kind == "RWRBFGS") { PB<RWRBFGS> s(c.P, &c.x0); ls15(s, g); qn15(s, g); s.pd = !noniso; s.Run(); }
    else if (kind == "LRBFGS") { if (prec) diagPC(c, g); PL<LRBFGS> s(c.P, &c.x0); ls15(s, g); qn15(s, g); int l[] = {0, 1, 2, 4, 7}; s.LengthSY = l[g.i(5)]; s.LMrestart = g.i(2); s.noniso = noniso; s.Run(); }
    else if (kind == "LRBFGSSub") { ns(c, g); PL<LRBFGSSub> s(c.P, &c.x0); base15(s, g); int l[] = {1, 2, 4, 7}; s.LengthSY = l[g.i(4)]; s.noniso = noniso; s.TimeBound = 2; double u[] = {1e7, 10, 2}; s.lambdaUpper = u[g.i(3)]; double w[] = {1e-7, 1e-2, 0.3}; s.lambdaLower = w[g.i(3)]; s.Run(); }
    else if (kind == "RBFGSSub") { ns(c, g); PBS s(c.P, &c.x0); base15(s, g); s.TimeBound = 2; double u[] = {1e7, 10, 2}; s.lambdaUpper = u[g.i(3)]; double w[] = {1e-7, 1e-2, 0.3}; s.lambdaLower = w[g.i(3)]; s.Run(); }
    else if (kind == "RCG") { if (prec) diagPC(c, g); PCG s(c.P, &c.x0); ls15(s, g); s.RCGmethod = (RCGmethods)g.i(RCGMETHODSLENGTH); if (g.i(2)) s.LineSearch_LS = LSSM_EXACT; s.Run(); }
    else if (kind == "RNewton") { if (prec) diagPC(c, g); PN s(c.P, &c.x0); ls15(s, g); double th[] = {1, 0.5, 0}; s.theta = th[g.i(3)]; double ka[] = {0.1, 0.5, 1e-3}; s.kappa = ka[g.i(3)]; int mi[] = {1000, 2, 30}; s.Max_Inner_Iter = mi[g.i(3)]; if (g.i(3) == 0) s.Min_Inner_Iter = 1; s.Run(); }
    else { double d[] = {1, 100, 0.1}; double D = d[g.i(3)];
        if (kind == "RTRSR1") { PSR s(c.P, &c.x0); base15(s, g); s.initial_Delta = D; s.Run(); }
        else { PLS s(c.P, &c.x0); base15(s, g); s.initial_Delta = D; int l[] = {1, 2, 4, 3}; s.LengthSY = l[g.i(4)]; s.LMrestart = g.i(2); s.noniso = noniso; s.Run(); } }
}
void prop_C15() {
    int q = R.thorough ? 150 : 30;
    for (std::string kind : {"RBFGS", "RBroyden", "RWRBFGS", "LRBFGS", "LRBFGSSub", "RBFGSSub", "RCG", "RNewton", "RTRSR1", "LRTRSR1"}) for (int k = 0; k < nCases(); k++) {
        bool nsm = kind == "LRBFGSSub" || kind == "RBFGSSub"; if (nsm && k != 0 && k != 2 && k != 3 && k != 4 && k != 8 && k != 11) continue;
        if (kind == "RWRBFGS" && (k == 6 || k == 8)) {} // handled like the others
        std::string base = str("%s/%d", kind.c_str(), k); if (!R.only.empty() && R.only.compare(0, std::min(base.size(), R.only.size()), base.substr(0, R.only.size()))) continue;
        isolated(base, [&]() { for (int r = 0; r < q; r++) { Rng g(R.seed * 15485863 + r * 61 + k * 13); Case c = mkCase(k, g); gid = str("%s/%s|%d", kind.c_str(), c.name.c_str(), r); go(kind, c, g, k); } }, 300);
    }
}
