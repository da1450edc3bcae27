#include "solv.h"
// common problems; C12: accepted line-search steps; C14: reported results
long NF, NG, NH, NR;
void smoothCost(FP *P, int n, Rng &g, int kind, bool sym) {
    Mx<double> A(n, n); Vd b(n), w(n);
    for (auto &v : A.a) v = g.n();
    if (kind % 3 == 0) A = (1.0 / n) * (A * H(A)) + 0.3 * eyeM<double>(n); else A = 0.5 * (A + H(A));
    for (auto &v : b) v = g.n();
    double c = kind % 2 ? 0.4 : 0.0, q = kind % 3 == 0 ? 0.05 : 0.2;
    if (sym) { A = eyeM<double>(n); int m = (int)std::lround(std::sqrt((double)n)); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) b[i + j * m] = (i == j ? -2.0 : 0) + 0.1 * std::cos(1.0 + i + j); }
    P->F = [=](const Vd &x) { double s = 0; for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += A(i, j) * x[j]; s += x[i] * (0.5 * t + b[i]) + c * std::sin(2 * x[i]) + q * x[i] * x[i] * x[i] * x[i] / 4; } return s; };
    P->G = [=](const Vd &x) { Vd r(n); for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += A(i, j) * x[j]; r[i] = t + b[i] + 2 * c * std::cos(2 * x[i]) + q * x[i] * x[i] * x[i]; } return r; };
    P->HV = [=](const Vd &x, const Vd &d) { Vd r(n); for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += A(i, j) * d[j]; r[i] = t + (-4 * c * std::sin(2 * x[i]) + 3 * q * x[i] * x[i]) * d[i]; } return r; };
}
int nCases() { return 14; }
Case mkCase(int k, Rng &g, bool) {
    Case c; c.P = new FP; c.M = nullptr; bool sym = false;
    auto st = [&](int n, int p, void (Stiefel::*s)()) { auto *m = new CM<Stiefel>(n, p); (m->*s)(); c.M = m; };
    switch (k) {
        case 0: c.M = new CM<Euclidean>(5); c.name = "Euclidean(5)"; break;
        case 1: c.M = new CM<Euclidean>(2, 3); c.name = "Euclidean(2x3)"; break;
        case 2: { auto *m = new CM<Sphere>(5); m->ChooseParamsSet1(); c.M = m; c.name = "Sphere(5)1"; break; }
        case 3: { auto *m = new CM<Sphere>(4); m->ChooseParamsSet2(); c.M = m; c.name = "Sphere(4)2"; break; }
        case 4: st(5, 2, &Stiefel::ChooseParamsSet1); c.name = "Stiefel(5,2)1"; break;
        case 5: st(4, 2, &Stiefel::ChooseParamsSet2); c.name = "Stiefel(4,2)2"; break;
        case 6: st(5, 3, &Stiefel::ChooseParamsSet3); c.name = "Stiefel(5,3)3"; break;
        case 7: st(4, 2, &Stiefel::ChooseParamsSet4); c.name = "Stiefel(4,2)4"; break;
        case 8: { c.M = new CM<Grassmann>(5, 2); c.name = "Grassmann(5,2)"; break; }
        case 9: { auto *m = new CM<SPDManifold>(3); m->ChooseParamsSet1(); c.M = m; sym = true; c.name = "SPD(3)1"; break; }
        case 10: { auto *m = new CM<SPDManifold>(2); m->ChooseParamsSet2(); c.M = m; sym = true; c.name = "SPD(2)2"; break; }
        case 11: { auto *m = new CM<Sphere>(6); m->ChooseParamsSet1(); m->SetHasHHR(true); c.M = m; c.name = "Sphere(6)1+HHR"; break; }
        case 12: { auto *m = new CM<Stiefel>(5, 2); m->ChooseParamsSet1(); m->SetHasHHR(true); c.M = m; c.name = "Stiefel(5,2)1+HHR"; break; }
        case 13: { auto *a = new Stiefel(4, 2); a->ChooseParamsSet1(); auto *b = new Euclidean(3); c.M = new CM<MultiManifolds>(2, (Manifold *)a, 2, (Manifold *)b, 1); c.name = "Product(2St+Euc)"; break; }
    }
    if (!c.M) return c;
    genrandseed((unsigned)(g.next() % 1000000));
    c.x0 = c.M->RandominManifold();
    smoothCost(c.P, (int)c.x0.Getlength(), g, (int)(g.next() % 6), sym);
    if (k == 8) { int n = 5, p = 2; Mx<double> A(n, n); for (auto &v : A.a) v = g.n(); A = A + H(A); // rotation invariant
        auto m = [n, p](const Vd &x) { Mx<double> X(n, p); X.a = x; return X; };
        c.P->F = [=](const Vd &x) { Mx<double> X = m(x); return re_dot(X, A * X); };
        c.P->G = [=](const Vd &x) { return (2.0 * (A * m(x))).a; };
        c.P->HV = [=](const Vd &, const Vd &d) { return (2.0 * (A * m(d))).a; }; }
    c.P->SetDomain(c.M);
    return c;
}
static bool want(const std::string &id) { return R.only.empty() || id.compare(0, R.only.size(), R.only) == 0; }

// ------------------------------------------------------------------ C12
static std::string gid;
template <class S> struct P12 : public S {
    bool exactGrad = true; std::vector<double> hist; bool nonmono = false; long succ = 0, failed = 0;
    P12(const Problem *p, const Variable *x) : S(p, x) {}
    void chk(const std::string &what) {
        const Manifold *M = this->Mani; const std::string id = gid + what;
        double t = this->stepsize, f1 = this->f1, f2 = this->f2;
        bool suc = this->LSstatus == LSSM_SUCCESS; if (suc) succ++; else failed++;
        // consistency of the stored iterate
        Vector e = scaled(M, this->x1, t, this->eta1);
        if (suc) R.ok(id + "/eta2", dist(data(e), data(this->eta2)) <= 1e-12 * (1e-300 + nrm(data(e))), "eta2 is not stepsize * eta1");
        Variable y(this->x1); long a = NR; M->Retraction(this->x1, this->eta2, &y); NR = a;
        R.ok(id + "/x2", dist(data(y), data(this->x2)) <= 1e-12 * (1 + nrm(data(y))), "x2 is not the moved point");
        R.ok(id + "/f2", sameV(val(this->Prob, this->x2), f2, 1e-12) || (std::isnan(f2)), "f2 is not the value at x2");
        Vector gf = gradAt(this->Prob, M, this->x2);
        R.ok(id + "/gf2", !std::isfinite(nrm(data(gf))) || dist(data(gf), data(this->gf2)) <= 1e-10 * (1e-300 + nrm(data(gf))), str("gf2 is not the gradient at x2: difference %.3g of %.3g, status %d t=%.3g f2=%.3g", dist(data(gf), data(this->gf2)), nrm(data(gf)), (int)this->LSstatus, t, f2));
        bool used = !(this->ngf1 / (this->ngf0 + this->Tolerance) < this->Accuracy);
        if (!suc || !used) return;
        double s0 = M->Metric(this->x1, this->gf1, this->eta1), tol = 1e-13 * (std::fabs(f1) + std::fabs(f2) + std::fabs(t * s0));
        LSAlgoSM al = this->LineSearch_LS; bool pure = al == LSSM_INPUTFUN && this->IsPureLSInput;
        std::string det = str("t=%.17g f1=%.17g f2=%.17g s0=%.17g", t, f1, f2, s0);
        if (pure || al == LSSM_EXACT) {} else if (al == LSSM_ARMIJO || al == LSSM_INPUTFUN) {
            double ref = f1; int n = 1;
            if (nonmono) for (int i = (int)hist.size() - 1; i >= 0 && n < this->Num_pre_funs; i--, n++) ref = std::max(ref, hist[i]);
            R.ok(id + "/armijo", f2 <= ref + this->LS_alpha * t * s0 + tol, det);
        } else R.ok(id + "/decrease", f2 <= f1 + this->LS_alpha * t * s0 + tol, det);
        if (al == LSSM_WOLFE || al == LSSM_STRONGWOLFE) {
            Vector d = M->GetEMPTY(); M->DiffRetraction(this->x1, this->eta2, this->x2, this->eta1, &d, true);
            double sl = M->Metric(this->x2, gf, d), st = 1e-10 * (std::fabs(sl) + std::fabs(s0));
            R.ok(id + "/newslope", std::fabs(sl - this->newslope) <= st, det + str(" slope=%.17g stored=%.17g", sl, this->newslope));
            if (al == LSSM_WOLFE) R.ok(id + "/curvature", sl >= this->LS_beta * s0 - st, det + str(" slope=%.17g", sl));
            else R.ok(id + "/strong", std::fabs(sl) <= -this->LS_beta * s0 + st, det + str(" slope=%.17g", sl));
        }
    }
    void UpdateData() override {
        chk("");
        // history for the nonmonotone reference
        hist.push_back(this->f1);
        S::UpdateData();
        double n2 = std::sqrt(this->Mani->Metric(this->x2, this->gf2, this->gf2));
        if (n2 / (this->ngf0 + this->Tolerance) <= this->PreFunsAccuracy) nonmono = true;
    }
};
static unsigned long long hsh(const Vd &x, unsigned long long s) { for (double v : x) { unsigned long long b; memcpy(&b, &v, 8); s ^= b; s *= 0x9E3779B97F4A7C15ULL; s ^= s >> 29; s *= 0xBF58476D1CE4E5B9ULL; s ^= s >> 32; } return s; }
static realdp lsInput(integer it, const Variable &, const Vector &, realdp s, realdp, const Problem *, const Solvers *) { return it % 3 == 0 ? s * 0.5 : (it % 3 == 1 ? 2.0 : -1.0); }
template <class S> static void lsParams(S &s, Rng &g, int al) {
    s.LineSearch_LS = (LSAlgoSM)al; s.Verbose = g.i(2) ? NOOUTPUT : ITERRESULT; s.Max_Iteration = 25; s.Tolerance = 1e-9;
    double as[] = {1e-4, 0.1, 0.3, 0.45}; s.LS_alpha = as[g.i(4)];
    double bs[] = {0.999, 0.9, 0.5, 0.46}; s.LS_beta = std::max(bs[g.i(4)], s.LS_alpha + 0.01);
    double r1[] = {0.1, 0.01, 0.3, 0.5, 0.7}; s.LS_ratio1 = r1[g.i(5)]; double r2[] = {0.9, 0.5, 0.7, 0.95}; s.LS_ratio2 = g.i(3) == 0 ? s.LS_ratio1 : std::max(s.LS_ratio1, r2[g.i(4)]);
    double mi[] = {2.2e-16, 1e-8, 1e-3}; s.Minstepsize = mi[g.i(3)];
    double ma[] = {1e10, 100, 3, 1.5}; s.Maxstepsize = ma[g.i(4)];
    s.Initstepsize = std::pow(10, 3 * g.u() - 2); if (s.Initstepsize > s.Maxstepsize) s.Initstepsize = s.Maxstepsize / 2;
    s.InitSteptype = (InitStepsizeSetSM)g.i(INITSTEPSIZESETSMLENGTH - (s.Mani->GetIsIntrinsic() ? 1 : 0)); 
    s.Num_pre_funs = 1 + g.i(4); double pa[] = {1e6, 0.5, 1e-3}; s.PreFunsAccuracy = pa[g.i(3)];
    s.Accuracy = g.i(4) ? 0 : 1e-2; s.Finalstepsize = g.i(2) ? -1 : 0.3;
    if (al == LSSM_INPUTFUN) { s.LinesearchInput = lsInput; s.IsPureLSInput = g.i(2); }
}
template <class S> static void run12(const std::string &nm, Case &c, Rng &g, int al) {
    S s(c.P, &c.x0); lsParams(s, g, al);
    if (s.InitSteptype == LSSM_EXTRBBSTEP && c.M->GetIntrDim() != c.M->GetExtrDim()) s.InitSteptype = LSSM_QUADINTMOD;
    s.Run(); R.ok(nm + "/ran", true);
}
void prop_C12() {
    const char *an[] = {"Armijo", "Wolfe", "StrongWolfe", "Exact", "Input"};
    int reps = R.thorough ? 8000 : 1200;
    for (int al = 0; al < 5; al++) for (int mode = 0; mode < 3; mode++) {
        std::string base = str("%s/%s", an[al], mode == 0 ? "oracle" : mode == 1 ? "profile" : "manifold");
        if (!R.only.empty() && R.only.compare(0, std::min(base.size(), R.only.size()), base.substr(0, R.only.size()))) continue;
        isolated(base, [&]() {
            for (int r = 0; r < (mode == 2 ? reps / 5 : reps); r++) {
                Rng g(R.seed * 7919 + r * 31 + al * 101 + mode * 1009); gid = base + str("|%d", r);
                if (mode == 2) {
                    Case c = mkCase(r % nCases(), g); c.M->SetHasHHR(c.M->GetHasHHR());
                    switch (g.i(4)) { case 0: run12<P12<RSD>>(gid, c, g, al); break; case 1: run12<P12<RCG>>(gid, c, g, al); break; case 2: run12<P12<RBFGS>>(gid, c, g, al); break; default: run12<P12<LRBFGS>>(gid, c, g, al); }
                    continue;
                }
                int n = 1 + g.i(3); Euclidean M(n); FP *P = new FP; unsigned long long key = g.next();
                if (mode == 0) { // arbitrary deterministic values and gradients
                    double sc = std::pow(10, 4 * g.u() - 3), down = g.u();
                    P->F = [=](const Vd &x) { Rng h(hsh(x, key) | 1); double t = 0; for (double v : x) t += v * v; double z = h.n(); return -down * 3 * std::log(1 + std::fabs(t)) * (h.u() < 0.5) + sc * z * (h.u() < 0.3 ? 10 : 0.1); };
                    P->G = [=](const Vd &x) { Rng h(hsh(x, key ^ 77) | 1); Vd r(n); double m = std::pow(10, 3 * h.u() - 2); for (auto &v : r) v = m * h.n(); return r; };
                } else { // random one-dimensional profiles
                    int kind = g.i(4); double a = std::pow(10, 2 * g.u() - 1), w = std::pow(10, 2 * g.u() - 0.7), q = std::pow(10, 4 * g.u() - 3); double cc = g.n();
                    auto p = [=](double t) { return kind == 0 ? q * t * t + a * std::sin(w * t + cc) : kind == 1 ? q * t * t * t * t - a * t * t + cc * t : kind == 2 ? std::sqrt(1 + w * t * t) + 0.1 * a * std::sin(w * t) : a * std::log(1 + w * t * t) - 0.01 * t; };
                    auto d = [=](double t) { return kind == 0 ? 2 * q * t + a * w * std::cos(w * t + cc) : kind == 1 ? 4 * q * t * t * t - 2 * a * t + cc : kind == 2 ? w * t / std::sqrt(1 + w * t * t) + 0.1 * a * w * std::cos(w * t) : 2 * a * w * t / (1 + w * t * t) - 0.01; };
                    P->F = [=](const Vd &x) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += p(x[i]) * (1 + 3 * i); return s; };
                    P->G = [=](const Vd &x) { Vd r(x.size()); for (size_t i = 0; i < x.size(); i++) r[i] = d(x[i]) * (1 + 3 * i); return r; };
                }
                P->HV = [=](const Vd &, const Vd &e) { return e; };
                P->SetDomain(&M); Case c; c.M = &M; c.P = P; c.x0 = Variable(n); { double *x = c.x0.ObtainWriteEntireData(); for (int i = 0; i < n; i++) x[i] = 2 * g.n(); }
                switch (g.i(mode == 0 ? 1 : 4)) { case 0: run12<P12<RSD>>(gid, c, g, al); break; case 1: run12<P12<RCG>>(gid, c, g, al); break; case 2: run12<P12<RBFGS>>(gid, c, g, al); break; default: run12<P12<LRBFGS>>(gid, c, g, al); }
            }
        }, 300);
    }
}

// ------------------------------------------------------------------ C14
template <class S> struct Kind { static const bool ls = std::is_base_of<SolversSMLS, S>::value, tr = std::is_base_of<SolversSMTR, S>::value, sub = std::is_base_of<SolversNSMSubLS, S>::value, pg = std::is_base_of<SolversNSMPGLS, S>::value; };
template <class S> struct P14 : public S {
    std::map<int, Variable> its; std::map<int, double> dirs; std::vector<std::pair<int, bool>> stops;
    P14(const Problem *p, const Variable *x) : S(p, x) {}
    void UpdateData() override { int k = Kind<S>::tr ? this->iter : this->iter - 1; Variable z(this->x1); z.RemoveAllFromFields(); its[k] = z; S::UpdateData(); }
    bool IsStopped() override { bool b = S::IsStopped(); stops.push_back({(int)this->iter, b}); return b; }
};
static double ngrad(const Problem *P, const Manifold *M, const Variable &x) { Vector v = gradAt(P, M, x); return std::sqrt(M->Metric(x, v, v)); }
static int stopAt = -1, stopCalls; static double stopF;
static bool userStop(const Variable &x, const Vector &, integer, realdp, realdp, const Problem *p, const Solvers *s) { stopCalls++; stopF = val(p, x); return s->GetIter() >= stopAt; }

template <class S> static void finish14(const std::string &id, P14<S> &s, Case &c, long exNF, bool hess) {
    double fx = val(c.P, s.GetXopt());
    R.ok(id + "/final-f", sameV(fx, s.Getfinalfun()), str("f(x)=%.17g reported=%.17g", fx, s.Getfinalfun()));
    R.ok(id + "/nf", s.Getnf() == NF, str("reported %d performed %ld", (int)s.Getnf(), NF));
    R.ok(id + "/ng", s.Getng() == NG, str("reported %d performed %ld", (int)s.Getng(), NG));
    R.ok(id + "/nR", s.GetnR() == NR, str("reported %d performed %ld", (int)s.GetnR(), NR));
    if (hess) R.ok(id + "/nH", s.GetnH() == NH, str("reported %d performed %ld", (int)s.GetnH(), NH));
    R.ok(id + "/iter", s.GetIter() >= 0 && s.GetIter() <= std::max(s.Max_Iteration, s.Min_Iteration));
    if (s.Verbose >= ITERRESULT) {
        R.ok(id + "/length", s.GetlengthSeries() == s.GetIter() + 1, str("length %d iterations %d", (int)s.GetlengthSeries(), (int)s.GetIter()));
        Vd fs = data(s.GetfunSeries()), ts = data(s.GettimeSeries());
        for (auto &k : s.its) R.ok(id + "/series-f", k.first < (int)fs.size() && sameV(fs[k.first], val(c.P, k.second)), str("entry %d is %.17g, iterate has %.17g", k.first, fs[k.first], val(c.P, k.second)));
        R.ok(id + "/series-last", sameV(fs[s.GetIter()], fx), str("last entry %.17g final %.17g", fs[s.GetIter()], fx));
        for (int i = 1; i <= s.GetIter(); i++) R.ok(id + "/series-time", ts[i] >= ts[i - 1], str("entry %d: %g after %g", i, ts[i], ts[i-1]));
        R.ok(id + "/series-time", s.GetComTime() >= ts[s.GetIter()], str("total %g last %g", s.GetComTime(), ts[s.GetIter()]));
    }
}
template <class S> static void run14(const std::string &id, Case &c, Rng &g) {
    NF = NG = NH = NR = 0;
    P14<S> s(c.P, &c.x0); s.Verbose = g.i(5) ? ITERRESULT : NOOUTPUT;
    s.Stop_Criterion = (StopCritSM)g.i(3); double tl[] = {1e-2, 1e-5, 1e-9}; s.Tolerance = tl[g.i(3)];
    int mi[] = {0, 1, 3, 12, 60}; s.Max_Iteration = mi[g.i(5)]; if (g.i(4) == 0) s.Min_Iteration = std::min<int>(4, s.Max_Iteration);
    s.OutputGap = 1 + g.i(3); int special = g.i(6);
    s.Accuracy = g.i(3) ? 1e-6 : 1e-2;
    stopCalls = 0;
    if (special == 0) { s.StopPtr = userStop; stopAt = g.i(6); }
    if (special == 1) s.TimeBound = -1;
    hook(s, g);
    if (Rng(g).i(4) == 0) { s.Run(); s.its.clear(); s.stops.clear(); stopCalls = 0; c.x0 = s.GetXopt(); c.x0.RemoveAllFromFields(); } // a second run continues from the result of the first
    s.Run();
    finish14<S>(id, s, c, 0, std::is_same<S, RTRNewton>::value || std::is_same<S, RNewton>::value);
    const Variable x = s.GetXopt(); double ng = ngrad(c.P, c.M, x), n0 = ngrad(c.P, c.M, c.x0);
    R.ok(id + "/final-ng", sameV(ng, s.Getnormgf(), 1e-9), str("|grad|=%.17g reported=%.17g", ng, s.Getnormgf()));
    R.ok(id + "/final-ng0", std::isnan(ng / n0) || sameV(ng / n0, s.Getnormgfgf0(), 1e-8), str("%.17g reported=%.17g", ng / n0, s.Getnormgfgf0()));
    if (s.Verbose >= ITERRESULT) {
        Vd gs = data(s.GetgradSeries());
        for (auto &k : s.its) R.ok(id + "/series-g", sameV(gs[k.first], ngrad(c.P, c.M, k.second), 1e-9), str("entry %d is %.17g, iterate has %.17g", k.first, gs[k.first], ngrad(c.P, c.M, k.second)));
        R.ok(id + "/series-g-last", sameV(gs[s.GetIter()], ng, 1e-9), str("%.17g vs %.17g", gs[s.GetIter()], ng));
    }
    // the criterion, evaluated on an iterate k
    auto crit = [&](int k, const Variable &y, bool hasprev, const Variable &yp) {
        if (special == 1) return true;
        if (special == 0) return k >= stopAt;
        if (s.Stop_Criterion == SM_GRAD_F) return ngrad(c.P, c.M, y) < s.Tolerance;
        if (s.Stop_Criterion == SM_GRAD_F_0) return ngrad(c.P, c.M, y) / n0 < s.Tolerance;
        double a = hasprev ? val(c.P, yp) : 0, b = val(c.P, y); return hasprev && std::fabs(a - b) / (std::fabs(a) + 1) < s.Tolerance; };
    int it = s.GetIter(); Variable dummy(x);
    bool last = crit(it, x, s.its.count(it - 1) > 0, s.its.count(it - 1) ? s.its[it - 1] : dummy);
    bool other = abnormal(s);
    if (special == 0 && Kind<S>::tr) last = true;     // the pointer is only consulted when a candidate is accepted
    R.ok(id + "/stop-reason", it >= s.Max_Iteration || other || last, str("stopped after %d of %d iterations, criterion %d value %.3g tolerance %.3g", it, (int)s.Max_Iteration, (int)s.Stop_Criterion, ng, s.Tolerance));
    if (it >= s.Min_Iteration && it > 0 && !Kind<S>::tr) for (int k = s.Min_Iteration; k < it; k++) if (s.its.count(k)) {
        bool cr = crit(k, s.its[k], s.its.count(k - 1) > 0, s.its.count(k - 1) ? s.its[k - 1] : dummy);
        double v = s.Stop_Criterion == SM_FUN_REL ? 1 : ngrad(c.P, c.M, s.its[k]) / (s.Stop_Criterion == SM_GRAD_F_0 ? n0 : 1);
        if (special < 2 || std::fabs(v / s.Tolerance - 1) > 1e-6) R.ok(id + "/overrun", !cr, str("criterion already held at iteration %d", k)); }
    if (special == 0) R.ok(id + "/user-stop", stopCalls > 0);
    if (special == 1) R.ok(id + "/time", it <= s.Min_Iteration || it == 0, str("%d iterations after the time bound", it));
}
template <class S> static bool abn(S &s, std::true_type) { return s.LSstatus != LSSM_SUCCESS || !std::isfinite(s.f2); }
template <class S> static bool abn(S &s, std::false_type) { return s.Delta < s.minimum_Delta || !std::isfinite(s.f2); }
template <class S> static bool abnormal(S &s) { return abn(s, std::integral_constant<bool, std::is_base_of<SolversSMLS, S>::value>()); }
template <class S> static void hk(S &s, Rng &g, std::true_type) { s.LineSearch_LS = (LSAlgoSM)g.i(4); s.InitSteptype = (InitStepsizeSetSM)g.i(LSSM_EXTRBBSTEP); if (g.i(3) == 0) { s.Maxstepsize = 2; s.Minstepsize = 1e-3; } s.LS_ratio1 = g.i(2) ? 0.1 : 0.5; s.LS_ratio2 = g.i(2) ? 0.5 : 0.9; }
template <class S> static void hk(S &s, Rng &g, std::false_type) { double d[] = {1, 100, 1e-2, 1e-4}; s.initial_Delta = d[g.i(4)]; if (g.i(3) == 0) s.minimum_Delta = 1e-3; s.Acceptence_Rho = g.i(2) ? 0.1 : 0.24; s.useRand = false; s.Max_Inner_Iter = g.i(3) ? 1000 : 2; }
template <class S> static void hook(S &s, Rng &g) { hk(s, g, std::integral_constant<bool, std::is_base_of<SolversSMLS, S>::value>()); }

// nonsmooth: max of affine functions / l1 on manifolds
struct NSC { static void mk(Case &c, Rng &g) {
    int n = (int)c.x0.Getlength(), m = n + 2; Mx<double> A(m, n); Vd b(m); for (auto &v : A.a) v = g.n(); for (auto &v : b) v = g.n(); double q = 0.3;
    auto vals = [=](const Vd &x) { Vd r(m); for (int i = 0; i < m; i++) { double t = b[i]; for (int j = 0; j < n; j++) t += A(i, j) * x[j]; r[i] = t; } return r; };
    c.P->F = [=](const Vd &x) { Vd r = vals(x); double s = 0; for (double v : x) s += v * v; return *std::max_element(r.begin(), r.end()) + q * s / 2; };
    c.P->G = [=](const Vd &x) { Vd r = vals(x); int k = (int)(std::max_element(r.begin(), r.end()) - r.begin()); Vd o(n); for (int j = 0; j < n; j++) o[j] = A(k, j) + q * x[j]; return o; };
} };
template <class S> static void run14sub(const std::string &id, Case &c, Rng &g) {
    NSC::mk(c, g); NF = NG = NH = NR = 0;
    P14<S> s(c.P, &c.x0); s.Verbose = g.i(4) ? ITERRESULT : NOOUTPUT; int mi[] = {0, 1, 5, 15}; s.Max_Iteration = mi[g.i(4)]; s.TimeBound = 2;
    s.Stop_Criterion = (StopCritNSM)(g.i(3)); s.Tolerance = g.i(2) ? 1e-3 : 1e-6; s.Eps = g.i(2) ? 1 : 1e-2; if (g.i(3) == 0) s.Maxstepsize = 1.5;
    if (Rng(g).i(4) == 0) { s.Run(); s.its.clear(); s.stops.clear(); }
    s.Run();
    finish14<S>(id, s, c, 0, false);
    R.ok(id + "/stop-reason", s.GetIter() >= s.Max_Iteration || s.LSstatus == LSNSM_MINSTEPSIZE || s.LSstatus == LSNSM_NOCURVATURE || s.LSstatus == LSNSM_LSERROR ||
         (s.Eps <= s.Min_Eps && s.stops.size() && s.stops.back().second), str("iteration %d Eps %.3g status %d", (int)s.GetIter(), s.Eps, (int)s.LSstatus));
}
struct CSPCA : public StieSPCA { CSPCA(Vector B, realdp la, integer n, integer m, integer p, integer l) : StieSPCA(B, la, n, m, p, l) {}
    realdp f(const Variable &x) const override { NF++; return StieSPCA::f(x); } Vector &EucGrad(const Variable &x, Vector *r) const override { NG++; return StieSPCA::EucGrad(x, r); } };
template <class S> static void run14pg(const std::string &id, Rng &g) {
    int m = 6, n = 7, p = 2; CM<Stiefel> M(n, p); M.ChooseParamsSet4(); Vector B(m, n); randfill(B, g); genrandseed((unsigned)(g.next() % 100000));
    CSPCA P(B, 0.3 + g.u(), n, m, p, g.i(2)); P.SetDomain(&M); Variable x0 = M.RandominManifold(); Case c; c.M = &M; c.x0 = x0;
    NF = NG = NH = NR = 0;
    P14<S> s(&P, &x0); s.Verbose = ITERRESULT; int mi[] = {0, 1, 5, 30}; s.Max_Iteration = mi[g.i(4)]; s.Tolerance = g.i(2) ? 1e-2 : 1e-4; s.Stop_Criterion = (StopCritNSM)g.i(3); s.Variant = (RPGLSVariant)g.i(2);
    s.Run();
    long nf = NF, ngr = NG, nr = NR; double fx = val(&P, s.GetXopt());
    R.ok(id + "/final-f", sameV(fx, s.Getfinalfun()), str("f(x)=%.17g reported=%.17g", fx, s.Getfinalfun()));
    R.ok(id + "/nf", s.Getnf() == nf, str("reported %d performed %ld", (int)s.Getnf(), nf));
    R.ok(id + "/ng", s.Getng() == ngr, str("reported %d performed %ld", (int)s.Getng(), ngr));
    R.ok(id + "/nR", s.GetnR() == nr, str("reported %d performed %ld", (int)s.GetnR(), nr));
    R.ok(id + "/length", s.GetlengthSeries() == s.GetIter() + 1);
    if (std::is_same<S, ManPG>::value) { Vd fs = data(s.GetfunSeries()); for (auto &k : s.its) R.ok(id + "/series-f", sameV(fs[k.first], val(&P, k.second)), str("entry %d", k.first)); R.ok(id + "/series-last", sameV(fs[s.GetIter()], fx)); }
    R.ok(id + "/stop-reason", s.GetIter() >= s.Max_Iteration || s.LSstatus == LSPG_MINSTEPSIZE || !std::isfinite(s.f2) || (s.stops.size() && s.stops.back().second));
    if (s.stops.size() && s.stops.back().second && s.GetIter() < s.Max_Iteration && s.Stop_Criterion != NSM_FUN_REL) R.ok(id + "/stop-true", s.ndir1 / (s.Stop_Criterion == NSM_DIR_F_0 ? s.ndir0 : 1) < s.Tolerance);
}
template <class S> static void loop14(const char *nm, int reps) {
    for (int k = 0; k < nCases(); k++) { std::string base = str("%s/%d", nm, k); if (!R.only.empty() && R.only.compare(0, std::min(base.size(), R.only.size()), base.substr(0, R.only.size()))) continue;
        isolated(base, [&]() { for (int r = 0; r < reps; r++) { Rng g(R.seed * 104729 + r * 53 + k * 7); Case c = mkCase(k, g); run14<S>(str("%s/%s|%d", nm, c.name.c_str(), r), c, g); } }, 200); }
}
template <class S> static void loop14s(const char *nm, int reps) {
    for (int k : {0, 2, 4, 8, 11}) { std::string base = str("%s/%d", nm, k); if (!want(base) && !R.only.empty()) continue;
        isolated(base, [&]() { for (int r = 0; r < reps; r++) { Rng g(R.seed * 104729 + r * 53 + k * 7); Case c = mkCase(k, g); run14sub<S>(str("%s/%s|%d", nm, c.name.c_str(), r), c, g); } }, 200); }
}
void prop_C14() {
    int q = R.thorough ? 300 : 50;
    loop14<RSD>("RSD", q); loop14<RNewton>("RNewton", q); loop14<RCG>("RCG", q); loop14<RBFGS>("RBFGS", q); loop14<RBroydenFamily>("RBroydenFamily", q); loop14<RWRBFGS>("RWRBFGS", q); loop14<LRBFGS>("LRBFGS", q);
    loop14<RTRSD>("RTRSD", q); loop14<RTRNewton>("RTRNewton", q); loop14<RTRSR1>("RTRSR1", q); loop14<LRTRSR1>("LRTRSR1", q);
    loop14s<RGS>("RGS", q / 2); loop14s<RBFGSSub>("RBFGSSub", q); loop14s<LRBFGSSub>("LRBFGSSub", q);
    for (int t = 0; t < 2; t++) isolated(t ? "AManPG" : "ManPG", [&]() { for (int r = 0; r < q; r++) { Rng g(R.seed * 31 + r); std::string id = str("%s|%d", t ? "AManPG" : "ManPG", r); if (t) run14pg<AManPG>(id, g); else run14pg<ManPG>(id, g); } }, 200);
}
