#include "mani.h"
template <class T> static double orthErr(const Variable &x) { Mx<T> X = mx<T>(x); return fro(H(X) * X - eyeM<T>(X.c)); }
template <class T> static double stTan(const Variable &x, const Vector &v) { Mx<T> W = H(mx<T>(x)) * mx<T>(v); return fro(W + H(W)); }
static double grTan(const Variable &x, const Vector &v) { return fro(H(mx<double>(x)) * mx<double>(v)); }
template <class T> static double symQTan(const Variable &x, const Vector &v) { // horizontal for EUC and HGZ: (Y'Y)^{-1} Y' eta hermitian
    Mx<T> Y = mx<T>(x), E = mx<T>(v); Mx<T> S = solve(H(Y) * Y, H(Y) * E); return fro(S - H(S)); }
template <class T> static double qeucTan(const Variable &x, const Vector &v) { Mx<T> S = H(mx<T>(x)) * mx<T>(v); return fro(S - H(S)); }
template <class T> static double q2fTan(const Variable &x, const Vector &v) {
    Mx<T> G = mx<T>(x.GetElement(0)), Hh = mx<T>(x.GetElement(1)), dG = mx<T>(v.GetElement(0)), dH = mx<T>(v.GetElement(1));
    return fro(solve(H(G) * G, H(G) * dG) - H(solve(H(Hh) * Hh, H(Hh) * dH))); }
static double frTan(const Variable &x, const Vector &v) {
    Mx<double> X = mx<double>(x), V = mx<double>(v), U = mx<double>(x.Field("U")), W = mx<double>(x.Field("V")), D = mx<double>(x.Field("D"));
    double e = fro(U * D * H(W) - X) ;
    Mx<double> PU = eyeM<double>(U.r) - U * H(U), PV = eyeM<double>(W.r) - W * H(W);
    e += fro(PU * V * PV);
    if (!v.FieldsExist("dU")) return INFINITY;
    Mx<double> dU = mx<double>(v.Field("dU")), dD = mx<double>(v.Field("dD")), dV = mx<double>(v.Field("dV"));
    e += fro(H(U) * dU) + fro(H(W) * dV) + fro(dU * D * H(W) + U * dD * H(W) + U * D * H(dV) - V);
    return e; }
static double frPt(const Variable &x) {
    Mx<double> X = mx<double>(x), U = mx<double>(x.Field("U")), W = mx<double>(x.Field("V")), D = mx<double>(x.Field("D"));
    return fro(U * D * H(W) - X) + fro(H(U) * U - eyeM<double>(U.c)) + fro(H(W) * W - eyeM<double>(W.c)); }
static double spdPt(const Variable &x) { Mx<double> X = mx<double>(x), V; Vd w; double e = fro(X - H(X)); jacobi(X, V, w); for (double l : w) if (!(l > 0)) e += 1 - l; return e; }
static double spdTan(const Variable &x, const Vector &v) { Mx<double> V = mx<double>(v); return fro(V - H(V)); }
static double none1(const Variable &) { return 0; }
static double none2(const Variable &, const Vector &) { return 0; }

template <class C> static C *st(int n, int p, int set) {
    C *m = new C(n, p);
    switch (set) { case 2: m->ChooseParamsSet2(); break; case 3: m->ChooseParamsSet3(); break; case 4: m->ChooseParamsSet4(); break; default: m->ChooseParamsSet1(); }
    return m; }
static Stiefel *st5(int n, int p) { Stiefel *m = new Stiefel(n, p); m->ChooseParamsSet5(); return m; }
template <class F> static PARAMSMAP pset(int k) { PARAMSMAP m; m[std::string("ParamSet")] = k; return m; }

static MC combine(std::vector<MC> parts, std::vector<int> reps, bool intrinsic) {
    MC c; c.name = "Prod(";
    for (auto &p : parts) c.name += p.name + ";";
    c.name += intrinsic ? ")i" : ")e";
    auto P = parts;
    c.make = [P, reps, intrinsic]() -> Manifold * {
        Manifold *m[3]; integer pw[4] = {0, 0, 0, 0};
        for (size_t i = 0; i < P.size(); i++) { m[i] = P[i].make(); m[i]->SetIsIntrApproach(intrinsic); pw[i + 1] = pw[i] + reps[i]; }
        MultiManifolds *pm = new MultiManifolds(m, (integer)P.size(), pw);
        pm->SetIsIntrApproach(intrinsic);
        return pm; };
    c.ptErr = [P, reps](const Variable &x) { double e = 0; int k = 0; for (size_t i = 0; i < P.size(); i++) for (int j = 0; j < reps[i]; j++) e += P[i].ptErr(x.GetElement(k++)); return e; };
    c.tanErr = [P, reps](const Variable &x, const Vector &v) { double e = 0; int k = 0; for (size_t i = 0; i < P.size(); i++) for (int j = 0; j < reps[i]; j++, k++) e += P[i].tanErr(x.GetElement(k), v.GetElement(k)); return e; };
    for (auto &p : parts) { c.iso &= p.iso; c.inv &= p.inv; c.diff = std::min(c.diff, p.diff); c.tranh &= p.tranh; c.intrinsic &= p.intrinsic; }
    c.co = 1; for (auto &p : parts) c.co &= p.co;
    c.hess = 0;
    return c;
}

std::vector<MC> manifolds(bool thorough) {
    std::vector<MC> L;
    auto add = [&](MC c) { L.push_back(c); };
    auto E = [&](int m, int n, int k, bool cplx) { MC c; c.name = str("Euclidean(%d,%d,%d%s)", m, n, k, cplx ? ",c" : "");
        c.make = [=]() -> Manifold * { return cplx ? new Euclidean(m, n, k, "complex") : new Euclidean(m, n, k); };
        c.ptErr = none1; c.tanErr = none2; c.co = 1; c.hess = !cplx; return c; };
    add(E(5, 1, 1, false)); add(E(3, 4, 1, false)); add(E(3, 2, 1, true));
    std::vector<std::pair<int, int>> sz = {{5, 2}, {4, 4}, {3, 1}, {6, 3}, {4, 3}, {2, 2}};
    if (thorough) { sz.push_back({9, 4}); sz.push_back({2, 1}); sz.push_back({7, 6}); sz.push_back({12, 2}); sz.push_back({1, 1}); }
    for (auto s : sz) {
        int n = s.first, p = s.second;
        for (int set = 1; set <= 5; set++) {
            if (n == 1 && p == 1) continue;      // zero-dimensional
            MC c; c.name = str("Stiefel(%d,%d)#%d", n, p, set);
            c.make = [=]() -> Manifold * { return set == 5 ? st5(n, p) : st<Stiefel>(n, p, set); };
            c.ptErr = orthErr<double>; c.tanErr = stTan<double>;
            c.iso = set != 2 && set != 4; c.inv = c.iso; c.co = (set <= 2); c.norm = 1; c.tranh = c.iso && set != 5; c.hhr = (set == 1 || set == 3 || set == 5);
            if (set >= 3) c.diff = 1;   // polar and Cayley: only directions along eta are implemented
            add(c);
            if (set == 2 || set == 4) { MC d = c; d.name = str("Stiefel(%d,%d)#%dcanonical", n, p, set); d.make = [=]() -> Manifold * { Stiefel *m = st<Stiefel>(n, p, set); m->metric = STIE_CANONICAL; return m; }; d.co = 0; d.intrinsic = 0; d.r1 = 0; add(d);
                d.name = str("CStiefel(%d,%d)#%dcanonical", n, p, set); d.make = [=]() -> Manifold * { CStiefel *m = st<CStiefel>(n, p, set); m->metric = CSTIE_CANONICAL; return m; }; d.ptErr = orthErr<cd>; d.tanErr = stTan<cd>; add(d); }
            if (set == 5) continue;
            c.name = str("CStiefel(%d,%d)#%d", n, p, set);
            c.make = [=]() -> Manifold * { return st<CStiefel>(n, p, set); };
            c.ptErr = orthErr<cd>; c.tanErr = stTan<cd>; c.co = 0; c.hess = 0;
            add(c);
        }
        if (p < n) {
            MC c; c.name = str("Grassmann(%d,%d)", n, p); c.make = [=]() -> Manifold * { return new Grassmann(n, p); };
            c.ptErr = orthErr<double>; c.tanErr = grTan; c.co = 1; c.quot = 1; c.hhr = 1; add(c);
        }
        for (int set = 1; set <= 6; set++) {
            if (n == 1) continue;
            MC c; c.name = str("SymFixedRankQ(%d,%d)#%d", n, p, set);
            c.make = [=]() -> Manifold * { SymFixedRankQ *m = new SymFixedRankQ(n, p); m->SetParams(pset<int>(set)); return m; };
            c.ptErr = none1; c.tanErr = (set % 3 == 0) ? qeucTan<double> : symQTan<double>; c.quot = 1; c.iso = set <= 3; c.inv = c.iso; c.tranh = c.iso; c.hhr = set <= 3; c.sc = 0.3; c.small = 2 * p > n; add(c);
        }
        for (int set = 1; set <= 4; set++) {
            if (n == 1) continue;
            MC c; c.name = str("CSymFixedRankQ(%d,%d)#%d", n, p, set);
            c.make = [=]() -> Manifold * { CSymFixedRankQ *m = new CSymFixedRankQ(n, p); m->SetParams(pset<int>(set)); return m; };
            c.ptErr = none1; c.tanErr = symQTan<cd>; c.quot = 1; c.iso = set <= 2; c.inv = c.iso; c.tranh = c.iso; c.hhr = set <= 2; c.sc = 0.3; c.hess = 0; c.small = 2 * p > n; add(c);
        }
    }
    std::vector<int> sn = {2, 3, 6}; if (thorough) { sn.push_back(11); }
    for (int n : sn) for (int set = 1; set <= 4; set++) {
        MC c; c.name = str("Sphere(%d)#%d", n, set);
        c.make = [=]() -> Manifold * { Sphere *s = new Sphere(n); if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4(); return s; };
        c.ptErr = orthErr<double>; c.tanErr = stTan<double>; c.co = 1; c.norm = 1; c.hhr = 1; add(c);
    }
    std::vector<int> pn = {1, 2, 3, 4}; if (thorough) pn.push_back(6);
    for (int n : pn) for (int set = 1; set <= 4; set++) {
        MC c; c.name = str("SPD(%d)#%d", n, set);
        c.make = [=]() -> Manifold * { SPDManifold *s = new SPDManifold(n); if (set == 1) s->ChooseParamsSet1(); if (set == 2) s->ChooseParamsSet2(); if (set == 3) s->ChooseParamsSet3(); if (set == 4) s->ChooseParamsSet4(); return s; };
        c.ptErr = spdPt; c.tanErr = spdTan; c.co = 0; c.hhr = (set <= 2); c.sc = 0.2; c.inv = (set <= 2); c.tranh = (set <= 2);
        c.r1 = set != 3;   // matrix operators are only provided in coordinates where the metric is Euclidean
        c.well = 1;
        if (set >= 3) c.diff = 0;      // the exponential's differential is not implemented
        c.iso = (set != 4);            // parallel translation of the affine-invariant metric under the Euclidean metric
        add(c);
    }
    std::vector<std::vector<int>> fr = {{5, 4, 2}, {3, 3, 1}, {4, 6, 3}, {3, 4, 3}}; if (thorough) { fr.push_back({7, 5, 2}); fr.push_back({2, 5, 2}); }
    for (auto s : fr) {
        int m = s[0], n = s[1], r = s[2];
        { MC c; c.name = str("FixedRankE(%d,%d,%d)", m, n, r); c.make = [=]() -> Manifold * { return new FixedRankE(m, n, r); };
          c.ptErr = frPt; c.tanErr = frTan; c.iso = 0; c.inv = 0; c.diff = 1; c.intrinsic = 0; c.tranh = 0; c.sc = 0.3; c.norm = 1; add(c); }
        { MC c; c.name = str("FixedRankQ2F(%d,%d,%d)", m, n, r); c.make = [=]() -> Manifold * { return new FixedRankQ2F(m, n, r); };
          c.ptErr = none1; c.tanErr = q2fTan<double>; c.quot = 1; c.hhr = 1; c.sc = 0.3; add(c); }
        { MC c; c.name = str("CFixedRankQ2F(%d,%d,%d)", m, n, r); c.make = [=]() -> Manifold * { return new CFixedRankQ2F(m, n, r); };
          c.ptErr = none1; c.tanErr = q2fTan<cd>; c.quot = 1; c.hhr = 1; c.sc = 0.3; c.hess = 0; add(c); }
    }
    for (int k = 0; k < 4; k++) { // unit sphere in the tangent space of another manifold
        Manifold *in = k < 2 ? (Manifold *)new Stiefel(5, 2) : k == 2 ? (Manifold *)new Grassmann(5, 2) : (Manifold *)new Sphere(4);
        in->SetIsIntrApproach(k % 2 == 0); Variable *rt = new Variable(in->RandominManifold());
        MC c; c.name = str("SphereTx(%s)#%d", in->GetName().c_str(), k); c.make = [=]() -> Manifold * { return new SphereTx(in, rt); };
        auto off = [=](const Vector &v) { Vector w(v), z(v); in->Projection(*rt, v, &w); in->ScalarVectorAddVector(*rt, -1, v, w, &z); return std::sqrt(std::fabs(in->Metric(*rt, z, z))); };
        c.ptErr = [=](const Variable &x) { return std::fabs(in->Metric(*rt, x, x) - 1) + off(x); };
        c.tanErr = [=](const Variable &x, const Vector &v) { return std::fabs(in->Metric(*rt, x, v)) + off(v); };
        c.intrinsic = 0; c.tranh = 0; c.diff = 1; c.hhr = 1; add(c); }
    auto find = [&](const std::string &n) { for (auto &c : L) if (c.name == n) return c; fprintf(stderr, "no %s\n", n.c_str()); exit(2); };
    add(combine({find("Stiefel(5,2)#1"), find("Euclidean(3,4,1)")}, {2, 1}, true));
    add(combine({find("Sphere(3)#1"), find("Stiefel(4,3)#1"), find("Euclidean(5,1,1)")}, {1, 2, 3}, true));
    add(combine({find("Grassmann(5,2)"), find("SPD(3)#1")}, {1, 1}, true));
    { MC c = combine({find("Stiefel(5,2)#2"), find("Euclidean(3,4,1)")}, {2, 1}, false); add(c); }
    { MC c = combine({find("Sphere(3)#2"), find("Stiefel(4,3)#4")}, {2, 1}, false); add(c); }
    // the same manifolds with tangent vectors represented in the embedding space
    for (size_t i = 0, e = L.size(); i < e; i++) {
        MC c = L[i]; if (c.name.compare(0, 5, "Prod(") == 0 || c.name.compare(0, 8, "SphereTx") == 0) continue;
        bool it; { Manifold *t = c.make(); it = t->GetIsIntrinsic(); delete t; }
        if (!it) {      // and the other way round where coordinates exist
            if (!c.intrinsic || c.name.compare(0, 9, "Euclidean") == 0 || c.name.compare(0, 6, "Sphere") == 0 || c.name.compare(0, 3, "SPD") == 0) continue;   // the exponential maps and parallel translations are written for the embedding space
            auto mk = c.make; c.make = [mk]() -> Manifold * { Manifold *m = mk(); m->SetIsIntrApproach(true); return m; };
            c.name += "int"; add(c); continue;
        }
        auto mk = c.make; c.make = [mk]() -> Manifold * { Manifold *m = mk(); m->SetIsIntrApproach(false); return m; };
        if (c.name.find("Stiefel") != std::string::npos || c.name.find("Grassmann") == 0 || c.name.find("SymFixedRankQ") != std::string::npos || c.name.find("Sphere(") == 0)
            if (c.name.find("#5") == std::string::npos) c.iso = c.inv = c.tranh = 0;   // parallelization is by coordinates: without them the transport is the projection
        c.name += "ext"; add(c);
    }
    return L;
}
