#include "mani.h"
// C11: every product operation against the same operation on each component with a separate instance of its manifold
struct PCost : Problem { virtual realdp f(const Variable &x) const { return 0; } };
static double rel(const Vd &a, const Vd &b) { if (a.size() != b.size()) return INFINITY; double d = dist(a, b); return d / (1 + nrm(b)); }

static void one(std::vector<MC> P, std::vector<int> reps, std::vector<int> rint, bool intrinsic, int ctor, bool lock, Rng &g, const std::string &id) {
    int K = (int)P.size(), N = 0; std::vector<Manifold *> own, ref; std::vector<int> kind;
    integer pw[5] = {0, 0, 0, 0, 0};
    for (int i = 0; i < K; i++) {
        own.push_back(P[i].make()); bool it = rint[i] && P[i].intrinsic; own[i]->SetIsIntrApproach(it);
        ref.push_back(P[i].make()); ref[i]->SetIsIntrApproach(it && intrinsic);
        pw[i + 1] = pw[i] + reps[i]; for (int j = 0; j < reps[i]; j++) kind.push_back(i); N += reps[i]; }
    MultiManifolds *M;
    if (ctor == 0) { Manifold *m[4]; for (int i = 0; i < K; i++) m[i] = own[i]; M = new MultiManifolds(m, K, pw); }
    else if (K == 1) M = new MultiManifolds(1, own[0], reps[0]);
    else if (K == 2) M = new MultiManifolds(2, own[0], reps[0], own[1], reps[1]);
    else M = new MultiManifolds(3, own[0], reps[0], own[1], reps[1], own[2], reps[2]);
    M->SetIsIntrApproach(intrinsic);
    auto R_ = [&](int j) { return ref[kind[j]]; };
    auto flags = [&](const char *w) { for (int i = 0; i < K; i++) R.ok(id + "/flag-restored", own[i]->GetIsIntrinsic() == (rint[i] && P[i].intrinsic), w); };
    int di = 0, de = 0; for (int j = 0; j < N; j++) { di += R_(j)->GetIntrDim(); de += R_(j)->GetExtrDim(); }
    R.ok(id + "/dims", M->GetIntrDim() == di && M->GetExtrDim() == de, str("%d %d vs %d %d", M->GetIntrDim(), M->GetExtrDim(), di, de));
    genrandseed((unsigned)(g.next() % 1000000));
    Variable x = M->RandominManifold();
    { double e = 0; for (int j = 0; j < N; j++) e += P[kind[j]].ptErr(x.GetElement(j)); R.le(id + "/random-point", e, 1e-9); }
    // well conditioned SPD points
    std::vector<Variable> X; for (int j = 0; j < N; j++) X.push_back(x.GetElement(j));
    { bool any = false; for (int j = 0; j < N; j++) if (P[kind[j]].well) { any = true; for (int t = 0; t < 500; t++) { Mx<double> Y = mx<double>(X[j]); if (fro(Y) < 30 && fro(inv(Y)) < 4) break; X[j] = R_(j)->RandominManifold(); } }
      if (any) { Variable z = M->GetEMPTYEXTR(); z.NewMemoryOnWrite(); for (int j = 0; j < N; j++) z.GetElement(j) = X[j]; x = z; } }
    Vector em = M->GetEMPTY();
    { int len = 0; for (int j = 0; j < N; j++) len += R_(j)->GetEMPTY().Getlength(); R.ok(id + "/empty", em.Getlength() == len, str("%d vs %d", em.Getlength(), len)); }
    auto assemble = [&](const std::vector<Vector> &v, bool ext) { Vector r = ext ? M->GetEMPTYEXTR() : M->GetEMPTY(); r.NewMemoryOnWrite(); for (int j = 0; j < N; j++) r.GetElement(j) = v[j]; return r; };
    auto tans = [&](double s) { std::vector<Vector> v; for (int j = 0; j < N; j++) v.push_back(randTan(R_(j), X[j], g, s * (0.5 + g.u()))); return v; };
    auto cmp = [&](const std::string &what, const Vector &r, const std::vector<Vector> &w, double tol = 1e-10) {
        double e = 0; int bad = -1; bool ok = r.Getnumofelements() == N; if (!ok) { R.ok(id + "/" + what, false, "number of components"); return; }
        for (int j = 0; j < N; j++) { double d = rel(data(r.GetElement(j)), data(w[j])); if (!(d <= e)) { e = d; bad = j; } }
        R.le(id + "/" + what, e, tol, str("component %d", bad)); };
    bool hasdiff = true, hasinv = true, hasco = true, tranh = true, r1 = true; int dmin = 2; bool spdish = false; bool fre = false;
    for (auto &p : P) { dmin = std::min(dmin, p.diff); hasinv = hasinv && p.inv; hasco = hasco && p.co; tranh = tranh && p.tranh; r1 = r1 && p.r1; fre = fre || p.name.find("FixedRankE") == 0; }
    hasdiff = dmin >= 1; (void)spdish; (void)r1;
    auto te = tans(0.2), tx = tans(1), tz = tans(1);
    Vector eta = assemble(te, false), xi = assemble(tx, false), ze = assemble(tz, false);
    { double s = 0, sc = 0; for (int j = 0; j < N; j++) { double v = R_(j)->Metric(X[j], tx[j], tz[j]); s += v; sc += std::fabs(v); } R.le(id + "/Metric", std::fabs(M->Metric(x, xi, ze) - s), 1e-11 * (1 + sc)); flags("Metric"); }
    // projections
    { std::vector<Vector> w, pe, pi; std::vector<Vector> rw;
      for (int j = 0; j < N; j++) { Vector a = R_(j)->GetEMPTY(); randfill(a, g); w.push_back(a); Vector r = R_(j)->GetEMPTY(); R_(j)->Projection(X[j], a, &r); pi.push_back(r);
          Vector b = R_(j)->GetEMPTYEXTR(); randfill(b, g); rw.push_back(b); Vector q = R_(j)->GetEMPTYEXTR(); R_(j)->ExtrProjection(X[j], b, &q); pe.push_back(q); }
      Vector v = assemble(w, false), r = M->GetEMPTY(); M->Projection(x, v, &r); cmp("Projection", r, pi); flags("Projection"); cmp("Projection-input", v, w);
      Vector al = v; M->Projection(x, al, &al); cmp("Projection-inplace", al, pi);
      Vector ve = assemble(rw, true), re = M->GetEMPTYEXTR(); M->ExtrProjection(x, ve, &re); cmp("ExtrProjection", re, pe); flags("ExtrProjection");
      M->ExtrProjection(x, ve, &ve); cmp("ExtrProjection-inplace", ve, pe); }
    // representations: the mode is that of each component
    if (intrinsic) {
      std::vector<Vector> ex, in; for (int j = 0; j < N; j++) { if (!R_(j)->GetIsIntrinsic()) { ex.push_back(tx[j]); in.push_back(tx[j]); continue; } Vector e = R_(j)->GetEMPTYEXTR(); R_(j)->ObtainExtr(X[j], tx[j], &e); ex.push_back(e); Vector c = R_(j)->GetEMPTYINTR(); R_(j)->ObtainIntr(X[j], e, &c); in.push_back(c); }
      Vector re = M->GetEMPTYEXTR(); M->ObtainExtr(x, xi, &re); cmp("ObtainExtr", re, ex); Vector ri = M->GetEMPTYINTR(); M->ObtainIntr(x, assemble(ex, true), &ri); cmp("ObtainIntr", ri, in); flags("ObtainIntr"); }
    // retraction
    std::vector<Variable> Y; std::vector<Vector> tk; for (int j = 0; j < N; j++) { Variable y = R_(j)->GetEMPTYEXTR(); R_(j)->Retraction(X[j], te[j], &y); Y.push_back(y); }
    Variable y = M->GetEMPTYEXTR(); M->Retraction(x, eta, &y); cmp("Retraction", y, Y); flags("Retraction"); cmp("Retraction-input", x, X);
    { double s = 0; for (int j = 0; j < N; j++) { double d = R_(j)->Dist(X[j], Y[j]); s += d * d; } double d = M->Dist(x, y); R.le(id + "/Dist", std::fabs(d - std::sqrt(s)), 1e-7 * (1 + d)); flags("Dist"); }
    // linear operations
    { double a = g.n(), b = g.n(); std::vector<Vector> w1, w2, w3; for (int j = 0; j < N; j++) { Vector r1_ = R_(j)->GetEMPTY(), r2 = r1_, r3 = r1_; R_(j)->ScalarTimesVector(X[j], a, tx[j], &r1_); R_(j)->VectorLinearCombination(X[j], a, tx[j], b, tz[j], &r2); R_(j)->ScalarVectorAddVector(X[j], a, tx[j], tz[j], &r3); w1.push_back(r1_); w2.push_back(r2); w3.push_back(r3); }
      Vector r = M->GetEMPTY(); M->ScalarTimesVector(x, a, xi, &r); cmp("ScalarTimesVector", r, w1); M->VectorLinearCombination(x, a, xi, b, ze, &r); cmp("VectorLinearCombination", r, w2);
      M->ScalarVectorAddVector(x, a, xi, ze, &r); cmp("ScalarVectorAddVector", r, w3); cmp("linear-input", xi, tx); cmp("linear-input", ze, tz);
      Vector s = ze; M->ScalarVectorAddVector(x, a, xi, s, &s); cmp("ScalarVectorAddVector-inplace", s, w3); Vector t = ze; M->VectorLinearCombination(x, a, xi, b, t, &t); cmp("VectorLinearCombination-inplace", t, w2); }
    // transports (component fields such as the projections onto the new point are recomputed on both sides)
    if (!fre) {
      std::vector<Vector> w; for (int j = 0; j < N; j++) { Vector r = R_(j)->GetEMPTY(); R_(j)->VectorTransport(X[j], te[j], Y[j], tx[j], &r); w.push_back(r); }
      Vector r = M->GetEMPTY(); M->VectorTransport(x, eta, y, xi, &r); cmp("VectorTransport", r, w); flags("VectorTransport"); cmp("VectorTransport-input", xi, tx);
      Vector s = xi; M->VectorTransport(x, eta, y, s, &s); cmp("VectorTransport-inplace", s, w);
      if (hasinv) { std::vector<Vector> wi; for (int j = 0; j < N; j++) { Vector q = R_(j)->GetEMPTY(); R_(j)->InverseVectorTransport(X[j], te[j], Y[j], w[j], &q); wi.push_back(q); }
        Vector q = M->GetEMPTY(); M->InverseVectorTransport(x, eta, y, r, &q); cmp("InverseVectorTransport", q, wi); flags("InverseVectorTransport");
        M->InverseVectorTransport(x, eta, y, r, &r); cmp("InverseVectorTransport-inplace", r, wi); }
      if (hasdiff) { std::vector<Vector> wd; bool same = dmin == 1; for (int j = 0; j < N; j++) { Vector q = R_(j)->GetEMPTY(); R_(j)->DiffRetraction(X[j], te[j], Y[j], same ? te[j] : tx[j], &q, same); wd.push_back(q); }
        Vector q = M->GetEMPTY(); M->DiffRetraction(x, eta, y, same ? eta : xi, &q, same); cmp("DiffRetraction", q, wd); flags("DiffRetraction"); }
      if (hasco) { std::vector<Vector> wc; for (int j = 0; j < N; j++) { Vector q = R_(j)->GetEMPTY(); R_(j)->coTangentVector(X[j], te[j], Y[j], w[j], &q); wc.push_back(q); }
        Vector q = M->GetEMPTY(), rr = assemble(w, false); M->coTangentVector(x, eta, y, rr, &q); cmp("coTangentVector", q, wc, 1e-8); flags("coTangentVector"); M->coTangentVector(x, eta, y, rr, &rr); cmp("coTangentVector-inplace", rr, wc, 1e-8); }
      // transported operator: acts as transport after operator after inverse transport
      if (hasinv && tranh) { int d = em.Getlength(); LinearOPE Hx(d, d); randfill(Hx, g); LinearOPE Hy(d, d); M->TranHInvTran(x, eta, y, Hx, &Hy); flags("TranHInvTran");
        { LinearOPE Hc = Hx; integer st = 0; for (int j = 0; j < N; j++) { integer en = st + te[j].Getlength(); R_(j)->HInvTran(X[j], te[j], Y[j], Hc, st, en, &Hc); R_(j)->TranH(X[j], te[j], Y[j], Hc, st, en, &Hc); st = en; } R.le(id + "/TranHInvTran blocks", rel(data(Hy), data(Hc)), 1e-9); }
        Vector v = M->GetEMPTY(), a = v, b = v; M->VectorTransport(x, eta, y, ze, &v); M->LinearOPEEta(y, Hy, v, &a);
        // restricted to the image of the transport
        Vector hz = M->GetEMPTY(); M->LinearOPEEta(x, Hx, ze, &hz);
        { Vd z = data(ze), o(z.size()); Vd H_ = data(Hx); for (size_t q = 0; q < z.size(); q++) for (size_t p = 0; p < z.size(); p++) o[p] += H_[p + q * z.size()] * z[q]; R.le(id + "/LinearOPEEta", rel(data(hz), o), 1e-11); }
        if (intrinsic) { bool all = true; for (int i = 0; i < K; i++) all = all && ref[i]->GetIsIntrinsic(); if (all) { M->VectorTransport(x, eta, y, hz, &b); R.le(id + "/TranHInvTran", rel(data(a), data(b)), 1e-9); } } }
      { { int d = em.Getlength(); LinearOPE Hx(d, d), Hr(d, d); randfill(Hx, g); double s = g.n(); M->HaddScaledRank1OPE(x, Hx, s, xi, ze, &Hr); flags("HaddScaledRank1OPE");
        Vector a = M->GetEMPTY(), b = a; M->LinearOPEEta(x, Hr, eta, &a); M->LinearOPEEta(x, Hx, eta, &b); double f = 0; for (int j = 0; j < N; j++) { Vector fl = R_(j)->GetEMPTY(); R_(j)->ObtainEtaxFlat(X[j], tz[j], &fl); f += dotv(data(fl), data(te[j])); } R.le(id + "/HaddScaledRank1OPE", rel(data(a), comb(1, data(b), s * f, data(xi))), 1e-9); } }
    }
    // derivatives
    { PCost pc; pc.SetDomain(M); pc.SetUseHess(true); std::vector<Vector> eg, rg, eh, rh, ex; bool hess = true;
      for (int j = 0; j < N; j++) { hess = hess && P[kind[j]].hess; Vector e = R_(j)->GetEMPTYEXTR(), r = e, h = e; randfill(e, g); randfill(h, g);
        if (P[kind[j]].name.find("SPD") == 0) { setmx(e, mx<double>(e) + H(mx<double>(e))); setmx(h, mx<double>(h) + H(mx<double>(h))); }
        eg.push_back(e); eh.push_back(h); R_(j)->EucGradToGrad(X[j], e, &pc, &r); rg.push_back(r); }
      Vector e = assemble(eg, true), r = M->GetEMPTYEXTR(); M->EucGradToGrad(x, e, &pc, &r); cmp("EucGradToGrad", r, rg); flags("EucGradToGrad"); cmp("EucGradToGrad-input", e, eg);
      R.ok(id + "/EGrad-kept", x.FieldsExist("EGrad"), "Euclidean gradient kept for the Hessian");
      if (hess) { for (int j = 0; j < N; j++) { Vector a = R_(j)->GetEMPTYEXTR(); if (R_(j)->GetIsIntrinsic()) R_(j)->ObtainExtr(X[j], tx[j], &a); else a = tx[j]; ex.push_back(a); Vector q = R_(j)->GetEMPTYEXTR(); R_(j)->EucHvToHv(X[j], a, eh[j], &pc, &q); rh.push_back(q); }
        Vector ax = assemble(ex, true), hh = assemble(eh, true), q = M->GetEMPTYEXTR(); M->EucHvToHv(x, ax, hh, &pc, &q); cmp("EucHvToHv", q, rh); flags("EucHvToHv"); cmp("EucHvToHv-input", hh, eh); M->EucHvToHv(x, ax, hh, &pc, &hh); cmp("EucHvToHv-inplace", hh, rh); }
      M->EucGradToGrad(x, e, &pc, &e); cmp("EucGradToGrad-inplace", e, rg); }
    // the stored locking scalar: ratio of the step length to the length of its differentiated retraction
    if (lock && hasdiff && hasinv && !fre) { M->SetHasHHR(true); Vector e2 = assemble(te, false), q = M->GetEMPTY(); Variable y2 = M->GetEMPTYEXTR(); M->Retraction(x, e2, &y2); M->DiffRetraction(x, e2, y2, e2, &q, true);
      std::vector<Vector> wd; double a = 0, b = 0; for (int j = 0; j < N; j++) { Vector t = te[j]; Vector p = R_(j)->GetEMPTY(); R_(j)->DiffRetraction(X[j], t, Y[j], t, &p, true); wd.push_back(p); a += R_(j)->Metric(X[j], t, t); b += R_(j)->Metric(Y[j], p, p); }
      cmp("DiffRetraction+HHR", q, wd); R.le(id + "/Beta", std::fabs(M->Beta(x, e2) - std::sqrt(a / b)), 1e-9 * (1 + std::sqrt(a / b)));
      if (intrinsic) { Vector t = M->GetEMPTY(); M->VectorTransport(x, e2, y2, e2, &t); R.le(id + "/locking", rel(data(t), comb(std::sqrt(a / b), data(q), 0, data(q))), 1e-8); }
      flags("locking"); }
}

void prop_C11() {
    auto L = manifolds(false); std::vector<MC> C; for (auto &c : L) if (c.name.find("Prod") != 0 && !c.small) C.push_back(c);
    int n = R.thorough ? 900 : 260;
    for (int k = 0; k < n; k++) {
        Rng g(R.seed * 100003 + k * 31 + 5);
        int K = 1 + g.i(3); std::vector<MC> P; std::vector<int> reps, ri; std::string nm;
        for (int i = 0; i < K; i++) { P.push_back(C[g.i((int)C.size())]); reps.push_back(1 + g.i(3)); { Manifold *t = P[i].make(); ri.push_back(t->GetIsIntrinsic() && g.i(4) != 0); delete t; } nm += P[i].name + str("^%d%s;", reps[i], ri[i] ? "i" : "e"); }
        bool in = g.i(3) != 0; int ctor = g.i(2); bool lock = g.i(2);
        std::string id = str("Prod%d%s[", K, in ? "i" : "e") + nm + str("]|s%d", R.seed * 1000 + k); id.erase(std::remove(id.begin(), id.end(), ' '), id.end());
        if (!R.only.empty() && id.compare(0, R.only.size(), R.only)) continue;
        isolated(id, [&]() { one(P, reps, ri, in, ctor, lock, g, id); });
    }
}
