#include "mani.h"
#include "iter.h"
// generic manifold checks C04..C10
typedef std::unique_ptr<Manifold> MP;
struct Env { Manifold *M; Variable x; };

static double sz(const Vector &v) { return 1 + nrm(data(v)); }
static double metricEx(Manifold *M, const Variable &x, const Vector &a, const Vector &b) {
    if (MultiManifolds *P = dynamic_cast<MultiManifolds *>(M)) { if (typeid(*P) == typeid(MultiManifolds)) {
        std::vector<bool> f; for (int k = 0; k < P->numoftypes; k++) { f.push_back(P->manifolds[k]->GetIsIntrinsic()); P->manifolds[k]->SetIsIntrApproach(false); }
        double r = M->Metric(x, a, b);
        for (int k = 0; k < P->numoftypes; k++) P->manifolds[k]->SetIsIntrApproach(f[k]);
        return r; } }
    bool i = intr(M); M->SetIsIntrApproach(false); double r = M->Metric(x, a, b); M->SetIsIntrApproach(i); return r; }

static void setIntr(Manifold *M, const MC &c, bool v) { M->SetIsIntrApproach(v); }

void prop_C04() {
    each([](MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
        Vector w = M->GetEMPTYEXTR(); randfill(w, g);
        Vd w0 = data(w), x0 = data(x);
        Vector t = M->GetEMPTYEXTR(), t2 = M->GetEMPTYEXTR(), z = M->GetEMPTYEXTR(), zt = M->GetEMPTYEXTR();
        M->ExtrProjection(x, w, &t);
        R.le(id + "/tangent", c.tanErr(x, t), 1e-9 * sz(t));
        R.le(id + "/argument unchanged", dist(data(w), w0), 0);
        R.le(id + "/point unchanged", dist(data(x), x0), 0);
        M->ExtrProjection(x, t, &t2);
        R.le(id + "/idempotent", dist(data(t), data(t2)), 1e-9 * sz(t));
        randfill(z, g); M->ExtrProjection(x, z, &zt);
        // the removed part is normal: embedded manifolds <w - Pw, Pz> = 0; quotients: vertical, invisible to the metric
        Vd r = comb(1, w0, -1, data(t));
        if (!c.quot || c.name.compare(0, 9, "Grassmann") == 0)
            R.le(id + "/removed part orthogonal", std::fabs(dotv(r, data(zt))), 1e-9 * (1 + nrm(r)) * sz(zt));
        else {
            Vector rv = M->GetEMPTYEXTR(); fill(rv, r);
            bool i = intr(M); M->SetIsIntrApproach(false);
            R.le(id + "/removed part orthogonal", std::fabs(M->Metric(x, rv, zt)), 1e-8 * (1 + nrm(r)) * sz(zt) * (1 + nrm(x0)) * (1 + nrm(x0)));
            M->SetIsIntrApproach(i);
        }
        // linear
        Vector cmb = M->GetEMPTYEXTR(), cp = M->GetEMPTYEXTR(); fill(cmb, comb(1.5, w0, -0.25, data(z))); M->ExtrProjection(x, cmb, &cp);
        R.le(id + "/linear", dist(data(cp), comb(1.5, data(t), -0.25, data(zt))), 1e-9 * (sz(t) + sz(zt)));
        // Projection: identity on the coordinates, the extrinsic projection otherwise
        bool i = intr(M);
        if (!i) { Vector q = M->GetEMPTYEXTR(); M->Projection(x, w, &q); R.le(id + "/Projection extrinsic", dist(data(q), data(t)), 1e-9 * sz(t)); }
        else { Vector v = M->GetEMPTYINTR(); randfill(v, g); Vd v0 = data(v); Vector q = M->GetEMPTYINTR(); M->Projection(x, v, &q); R.le(id + "/Projection intrinsic", dist(data(q), v0), 1e-12 * sz(v)); }
    });
}

void prop_C05() {
    each([](MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
        Vd x0 = data(x);
        double steps[] = {c.sc, 0.05, c.sc * 2.5};
        for (double s : steps) {
            Vector eta = randTan(M, x, g, s); Vd e0 = data(eta);
            Variable y = x; M->Retraction(x, eta, &y);
            std::string sid = id + str("/step%.3g", s);
            R.le(sid + "/on manifold", c.ptErr(y), 1e-9 * (1 + nrm(data(y))));
            R.le(sid + "/point unchanged", dist(data(x), x0), 0);
            R.le(sid + "/vector unchanged", dist(data(eta), e0), 0);
            R.ok(sid + "/moves", dist(data(y), x0) > 1e-6 * s);
            // a second application from the result stays on the manifold
            Vector e2 = randTan(M, y, g, (c.well ? 0.03 : 0.3) * c.sc); Variable z = y; M->Retraction(y, e2, &z);
            R.le(sid + "/on manifold after two", c.ptErr(z), 1e-8 * (1 + nrm(data(z))));
        }
        Vector eta = randTan(M, x, g, 1);
        Vector zero = scaled(M, x, 0, eta);
        Variable y = x; M->Retraction(x, zero, &y);
        R.le(id + "/zero vector", dist(data(y), x0), 1e-10 * (1 + nrm(x0)));
        double t = 1e-4 * c.sc;
        Vector p = scaled(M, x, t, eta), m = scaled(M, x, -t, eta);
        Variable yp = x, ym = x; M->Retraction(x, p, &yp); M->Retraction(x, m, &ym);
        Vd d = comb(0.5 / t, data(yp), -0.5 / t, data(ym));
        if (c.quot) { Vector dv = M->GetEMPTYEXTR(), dp = M->GetEMPTYEXTR(); fill(dv, d); M->ExtrProjection(x, dv, &dp); d = data(dp); }
        R.le(id + "/first order", dist(d, data(toEx(M, x, eta))), 3e-6 * (1 + nrm(data(toEx(M, x, eta)))));
    });
}

// ambient gradient fields that are gradients of functions on the manifold
static Vector egrad(const MC &c, Manifold *M, const Variable &x, Rng &g);

struct DummyProb : Problem {
    virtual realdp f(const Variable &) const { return 0; }
};

static Mx<double> rnd(int r, int c, Rng &g) { Mx<double> A(r, c); for (auto &v : A.a) v = g.n(); return A; }
static Mx<cd> rndc(int r, int c, Rng &g) { Mx<cd> A(r, c); for (auto &v : A.a) v = cd(g.n(), g.n()); return A; }

static Vector egrad(const MC &c, Manifold *M, const Variable &x, Rng &g) {
    Vector e = M->GetEMPTYEXTR();
    auto is = [&](const char *p) { return c.name.compare(0, strlen(p), p) == 0; };
    if (is("SymFixedRankQ")) { Mx<double> A = rnd(x.Getrow(), x.Getrow(), g); setmx(e, (A + H(A)) * mx<double>(x)); }
    else if (is("CSymFixedRankQ")) { Mx<cd> A = rndc(x.Getrow(), x.Getrow(), g); setmx(e, (A + H(A)) * mx<cd>(x)); }
    else if (is("FixedRankQ2F")) { Mx<double> G = mx<double>(x.GetElement(0)), Hh = mx<double>(x.GetElement(1)), A = rnd(G.r, Hh.r, g);
        e.NewMemoryOnWrite(); setmx(e.GetElement(0), A * Hh); setmx(e.GetElement(1), H(A) * G); }
    else if (is("CFixedRankQ2F")) { Mx<cd> G = mx<cd>(x.GetElement(0)), Hh = mx<cd>(x.GetElement(1)), A = rndc(G.r, Hh.r, g);
        e.NewMemoryOnWrite(); setmx(e.GetElement(0), A * Hh); setmx(e.GetElement(1), H(A) * G); }
    else if (is("SPD")) { Mx<double> A = rnd(x.Getrow(), x.Getrow(), g); setmx(e, A + H(A)); }
    else if (c.name.find("SPD(3)") != std::string::npos) {
        Vector e1 = e.GetElement(1); randfill(e, g); Mx<double> A = rnd(3, 3, g); Mx<double> B = rnd(x.GetElement(0).Getrow(), x.GetElement(0).Getrow(), g);
        Vector f0 = e.GetElement(0); setmx(f0, (B + H(B)) * mx<double>(x.GetElement(0))); Vd all = data(f0), s; { Mx<double> S = A + H(A); s.assign(S.a.begin(), S.a.end()); }
        all.insert(all.end(), s.begin(), s.end()); fill(e, all); }
    else if (is("Grassmann")) { Mx<double> A = rnd(x.Getrow(), x.Getrow(), g); setmx(e, (A + H(A)) * mx<double>(x)); }
    else if (is("Prod(Grassmann")) { randfill(e, g); Mx<double> A = rnd(x.GetElement(0).Getrow(), x.GetElement(0).Getrow(), g); Vector e0 = e.GetElement(0); setmx(e0, (A + H(A)) * mx<double>(x.GetElement(0))); 
        Vd all = data(e), a = data(e0); for (size_t i = 0; i < a.size(); i++) all[i] = a[i]; fill(e, all); }
    else randfill(e, g);
    return e;
}

void prop_C06() {
    DummyProb prob;
    each([&](MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
        for (int h = 0; h < 2; h++) {
            prob.SetUseHess(h);
            std::string hid = id + (h ? "/hess" : "/grad");
            Vector e = egrad(c, M, x, g); Vd e0 = data(e), x0 = data(x);
            Vector gr = M->GetEMPTYEXTR(); M->EucGradToGrad(x, e, &prob, &gr);
            R.le(hid + "/tangent", c.tanErr(x, gr), 1e-8 * sz(gr));
            R.le(hid + "/point unchanged", dist(data(x), x0), 0);
            for (int k = 0; k < 3; k++) {
                bool i = intr(M); 
                Vector z = randTan(M, x, g, 1), zx = toEx(M, x, z);
                double lhs;
                if (i) { Vector gi = M->GetEMPTYINTR(); M->ObtainIntr(x, gr, &gi); lhs = M->Metric(x, gi, z); }
                else lhs = M->Metric(x, gr, z);
                double rhs = dotv(e0, data(zx));
                R.le(hid + "/represents the differential", std::fabs(lhs - rhs), 1e-8 * (1 + std::fabs(rhs) + nrm(e0) * nrm(data(zx))));
            }
        }
    });
}

void prop_C08() {
    each([](MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
        if (c.norm && (c.name.find("Grassmann") == std::string::npos)) {
            Vector ww = M->GetEMPTYEXTR(), tt = ww; randfill(ww, g); M->ExtrProjection(x, ww, &tt);
            Vector nv = M->GetEMPTYEXTR(); fill(nv, comb(1, data(ww), -1, data(tt)));
            int nd = M->GetExtrDim() - M->GetIntrDim();
            if (c.name.compare(0, 8, "CStiefel") == 0) nd = 2 * M->GetEMPTYEXTR().Getrow() * M->GetEMPTYEXTR().Getcol() - M->GetIntrDim();
            if (nd > 0) {
                Vector ni(nd); M->ObtainNorVerIntr(x, nv, &ni);
                Vector nb = M->GetEMPTYEXTR(); M->ObtainNorVerExtr(x, ni, &nb);
                R.le(id + "/normal round trip", dist(data(nv), data(nb)), 1e-8 * sz(nv));
                R.le(id + "/normal isometric", std::fabs(dotv(data(nv), data(nv)) - dotv(data(ni), data(ni))), 1e-8 * sz(nv) * sz(nv));
            }
        }
        if (!c.intrinsic) return;
        Vector w = M->GetEMPTYEXTR(), t = w, t2 = w, u = w, v = M->GetEMPTYINTR(), v2 = v, b = v;
        bool i = intr(M);
        R.ok(id + "/coordinate dimension", M->GetEMPTYINTR().Getlength() == M->GetIntrDim() || i == false, str("%d vs %d", (int)M->GetEMPTYINTR().Getlength(), (int)M->GetIntrDim()));
        randfill(w, g); M->ExtrProjection(x, w, &t); randfill(w, g); M->ExtrProjection(x, w, &u);
        Vd t0 = data(t), x0 = data(x);
        M->ObtainIntr(x, t, &v);
        R.le(id + "/vector unchanged", dist(data(t), t0), 0);
        M->ObtainExtr(x, v, &t2);
        double xs = 1 + nrm(x0);
        R.le(id + "/extr(intr(t))=t", dist(t0, data(t2)), 1e-8 * sz(t) * xs);
        M->ObtainIntr(x, u, &b);
        bool prodExtr = (c.name[0] == 'P' && !i);
        if (!prodExtr) {
            double me = metricEx(M, x, t, u);
            R.le(id + "/isometric", std::fabs(me - dotv(data(v), data(b))), 1e-8 * (1 + std::fabs(me)) * xs * xs * sz(t) * sz(u));
        }
        randfill(v, g); if (prodExtr) { Vector q = M->GetEMPTYEXTR(); return; }
        Vd v0 = data(v);
        M->ObtainExtr(x, v, &t); R.le(id + "/coordinates give tangent vectors", c.tanErr(x, t), 1e-8 * sz(t) * xs);
        M->ObtainIntr(x, t, &v2); R.le(id + "/intr(extr(v))=v", dist(v0, data(v2)), 1e-8 * sz(v) * xs);
        R.le(id + "/point unchanged", dist(data(x), x0), 0);
        // the same at a point produced by a retraction (cached decompositions)
        M->SetIsIntrApproach(i);
        Vector eta = randTan(M, x, g, 0.5 * c.sc); Variable y = x; M->Retraction(x, eta, &y);
        M->ObtainExtr(y, v, &t); R.le(id + "/tangent at a retracted point", c.tanErr(y, t), 1e-8 * sz(t) * (1 + nrm(data(y))));
        M->ObtainIntr(y, t, &v2); R.le(id + "/round trip at a retracted point", dist(v0, data(v2)), 1e-8 * sz(v) * (1 + nrm(data(y))));
        double mm = metricEx(M, y, t, t);
        R.le(id + "/isometric at a retracted point", std::fabs(mm - dotv(v0, v0)), 1e-8 * (1 + mm) * (1 + nrm(data(y))));
    });
}

static void vt(bool hhr) {
    each([hhr](MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
        Vector eta = randTan(M, x, g, c.sc), xi = randTan(M, x, g, 1), ze = randTan(M, x, g, 1.3);
        Variable y = x; M->Retraction(x, eta, &y);
        double xs = (1 + nrm(data(x))) * (1 + nrm(data(y)));
        if (hhr) { Vector tmp = M->GetEMPTY(); M->DiffRetraction(x, eta, y, eta, &tmp, true); }
        Vector a = M->GetEMPTY(), b = M->GetEMPTY();
        Vd xi0 = data(xi);
        M->VectorTransport(x, eta, y, xi, &a); M->VectorTransport(x, eta, y, ze, &b);
        R.le(id + "/vector unchanged", dist(data(xi), xi0), 0);
        Vector ax = toEx(M, y, a);
        R.le(id + "/tangent at the target", c.tanErr(y, ax), 1e-8 * sz(ax) * xs);
        double m0 = M->Metric(x, xi, ze), m1 = M->Metric(y, a, b);
        double n0 = M->Metric(x, xi, xi), n1 = M->Metric(y, a, a);
        if (c.iso) {
            R.le(id + "/isometric", std::fabs(m0 - m1), 1e-8 * (1 + std::fabs(m0)) * xs);
            R.le(id + "/isometric norm", std::fabs(n0 - n1), 1e-8 * (1 + std::fabs(n0)) * xs);
        }
        // linear
        if (!hhr || c.iso) {
            Vector cmb = xi, ct = M->GetEMPTY(); M->VectorLinearCombination(x, 0.7, xi, -1.9, ze, &cmb);
            Vector want = a; M->VectorLinearCombination(y, 0.7, a, -1.9, b, &want);
            M->VectorTransport(x, eta, y, cmb, &ct);
            R.le(id + "/linear", dist(data(ct), data(want)), 1e-8 * xs * (1 + nrm(data(want))));
        }
        if (c.inv) {
            Vector back = M->GetEMPTY(); M->InverseVectorTransport(x, eta, y, a, &back);
            R.le(id + "/inverse undoes transport", dist(data(back), xi0), 1e-8 * sz(xi) * xs);
            Vector xy = randTan(M, y, g, 1), p = M->GetEMPTY(), q = M->GetEMPTY(); 
            M->InverseVectorTransport(x, eta, y, xy, &p); M->VectorTransport(x, eta, y, p, &q);
            R.le(id + "/transport undoes inverse", dist(data(q), data(xy)), 1e-8 * sz(xy) * xs);
        }
        if (hhr) {
            // locking condition: T_eta eta = beta DR(eta)[eta], |T eta| = |eta|
            Vector te = M->GetEMPTY(), dr = M->GetEMPTY(); M->VectorTransport(x, eta, y, eta, &te); M->DiffRetraction(x, eta, y, eta, &dr, true);
            double be = std::sqrt(M->Metric(x, eta, eta) / M->Metric(y, dr, dr));
            Vector want = scaled(M, y, be, dr);
            R.le(id + "/locking condition", dist(data(te), data(want)), 1e-7 * sz(te) * xs);
            R.le(id + "/beta", std::fabs(M->Beta(x, eta) - be), 1e-8 * (1 + be));
        }
        // operators on tangent vectors
        if (c.tranh && c.inv) {
            integer d = M->GetEMPTY().Getlength(); bool prodOK = true;
            if (prodOK) {
                LinearOPE Hx(d, d), Hy(d, d); randfill(Hx, g);
                Vd h0 = data(Hx);
                // make the operator respect the tangent space in the extrinsic representation: H = sum of rank ones
                if (!intr(M)) { Hx.ScaledIdOPE(1.5); Vector f1 = randTan(M, x, g, 1), f2 = randTan(M, x, g, 1); M->HaddScaledRank1OPE(x, Hx, 0.8, f1, f2, &Hx); M->HaddScaledRank1OPE(x, Hx, -0.4, f2, f1, &Hx); h0 = data(Hx); }
                M->TranHInvTran(x, eta, y, Hx, &Hy);
                R.le(id + "/operator argument unchanged", dist(data(Hx), h0), 0);
                Vector xy = randTan(M, y, g, 1), p = M->GetEMPTY(), hp = M->GetEMPTY(), want = M->GetEMPTY(), got = M->GetEMPTY();
                M->InverseVectorTransport(x, eta, y, xy, &p); M->LinearOPEEta(x, Hx, p, &hp); M->VectorTransport(x, eta, y, hp, &want);
                M->LinearOPEEta(y, Hy, xy, &got);
                R.le(id + "/transported operator", dist(data(got), data(want)), 1e-8 * xs * (1 + nrm(data(want))));
            }
        }
        if (c.r1) {
            integer d = M->GetEMPTY().Getlength();
            LinearOPE Hx(d, d), Hr(d, d); randfill(Hx, g); Vd h0 = data(Hx);
            Vector f1 = randTan(M, x, g, 1), f2 = randTan(M, x, g, 1), v = randTan(M, x, g, 1);
            M->HaddScaledRank1OPE(x, Hx, -0.6, f1, f2, &Hr);
            R.le(id + "/rank-one update leaves its operand", dist(data(Hx), h0), 0);
            Vector hv = M->GetEMPTY(), rv = M->GetEMPTY(); M->LinearOPEEta(x, Hx, v, &hv); M->LinearOPEEta(x, Hr, v, &rv);
            double cf = -0.6 * M->Metric(x, f2, v);
            Vector cfv = f1; 
            Vd want = comb(1, data(hv), cf, data(f1));
            R.le(id + "/rank-one update", dist(data(rv), want), 1e-8 * xs * (1 + nrm(want)));
            if (!hhr) {
                M->HaddScaledRank1OPE(x, Hx, -0.6, f1, f2, &Hx);
                R.le(id + "/rank-one update in place", dist(data(Hx), data(Hr)), 1e-12 * (1 + nrm(h0)));
            }
        }
    }, hhr);
}
void prop_C09() { vt(false); vt(true); }

void prop_C10() {
    each([](MC &c, Manifold *M, Variable &x, Rng &g, const std::string &id) {
        Vector eta = randTan(M, x, g, c.sc), xi = randTan(M, x, g, 1);
        Variable y = x; M->Retraction(x, eta, &y);
        double xs = (1 + nrm(data(y)));
        double t = 1e-5;
        auto fd = [&](const Vector &dir) {
            Vector p = eta, m = eta; M->VectorLinearCombination(x, 1, eta, t, dir, &p); M->VectorLinearCombination(x, 1, eta, -t, dir, &m);
            Variable yp = x, ym = x; M->Retraction(x, p, &yp); M->Retraction(x, m, &ym);
            Vector d = M->GetEMPTYEXTR(), dp = M->GetEMPTYEXTR(); fill(d, comb(0.5 / t, data(yp), -0.5 / t, data(ym)));
            M->ExtrProjection(y, d, &dp); return c.quot || c.name.find("Grassmann") != std::string::npos ? data(dp) : data(d); };
        if (c.diff >= 2) {
            Vector d = M->GetEMPTY(); Vd xi0 = data(xi), y0 = data(y); M->DiffRetraction(x, eta, y, xi, &d, false);
            Vector dx = toEx(M, y, d); Vd want = fd(xi);
            R.le(id + "/general direction", dist(data(dx), want), 1e-5 * (1 + nrm(want)) * xs);
            if (c.name.find("SymFixedRankQ") != std::string::npos) { // documented: the differential of x + eta, projected at the target
                Vector pd = M->GetEMPTYEXTR(); M->ExtrProjection(y, toEx(M, x, xi), &pd);
                R.le(id + "/documented form", dist(data(dx), data(pd)), 1e-9 * sz(pd) * xs); }
            R.le(id + "/tangent", c.tanErr(y, dx), 1e-8 * sz(dx) * xs);
            R.le(id + "/vector unchanged", dist(data(xi), xi0), 0); R.le(id + "/target unchanged", dist(data(y), y0), 0);
        }
        if (c.diff >= 1) {
            Vector e2 = scaled(M, x, 1, eta), x2 = scaled(M, x, 1.7, eta), d = M->GetEMPTY(); M->DiffRetraction(x, e2, y, x2, &d, true);
            Vector dx = toEx(M, y, d); Vd want = fd(x2);
            R.le(id + "/same direction", dist(data(dx), want), 1e-5 * (1 + nrm(want)) * xs);
        }
        if (c.co) {
            Vector zy = randTan(M, y, g, 1), co = M->GetEMPTY(), d = M->GetEMPTY();
            M->coTangentVector(x, eta, y, zy, &co); M->DiffRetraction(x, eta, y, xi, &d, false);
            double a = M->Metric(y, zy, d), b = M->Metric(x, co, xi);
            R.le(id + "/cotangent is the adjoint", std::fabs(a - b), 1e-8 * (1 + std::fabs(a)) * xs);
        }
    });
}
