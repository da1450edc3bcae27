// C19: every option of every solver and manifold set by name; compared byte by byte with an untouched twin
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstdio>
#include <map>
#include <list>
#include <vector>
#include <string>
#include <cmath>
#include <limits>
#include <ctime>
#include <cassert>
#include <cstdarg>
#include <functional>
#include <algorithm>
#include <memory>
#include <complex>
#include <typeinfo>
#include <set>
#define protected public
#define private public
#include "mani.h"
#include "Problems/StieBrockett.h"
#include "Problems/StieSPCA.h"
#include "Solvers/RSD.h"
#include "Solvers/RNewton.h"
#include "Solvers/RCG.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/RBFGS.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/RGS.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
struct Opt { std::string n; size_t off; char kind; size_t sz; int lim; };
typedef std::vector<Opt> Opts;
#define O_(C, m, k, lim) o.push_back({#m, (size_t)((char *)&((C *)b)->m - (char *)b), k, sizeof(((C *)b)->m), lim})
static void oBase(Opts &o, Solvers *b) { O_(Solvers, Tolerance, 'r', 0); O_(Solvers, TimeBound, 'r', 0); O_(Solvers, Max_Iteration, 'i', 0); O_(Solvers, Min_Iteration, 'i', 0); O_(Solvers, OutputGap, 'i', 0); O_(Solvers, Verbose, 'e', VERBOSELENGTH); }
static void oSM(Opts &o, SolversSM *b) { oBase(o, b); O_(SolversSM, Stop_Criterion, 'e', STOPCRITSMLENGTH); O_(SolversSM, Accuracy, 'r', 0); }
static void oLS(Opts &o, SolversSMLS *b) { oSM(o, b); O_(SolversSMLS, LineSearch_LS, 'e', LSALGOSMLENGTH); O_(SolversSMLS, IsPureLSInput, 'b', 0); O_(SolversSMLS, LS_alpha, 'r', 0); O_(SolversSMLS, LS_beta, 'r', 0); O_(SolversSMLS, Minstepsize, 'r', 0); O_(SolversSMLS, Maxstepsize, 'r', 0); O_(SolversSMLS, LS_ratio1, 'r', 0); O_(SolversSMLS, LS_ratio2, 'r', 0); O_(SolversSMLS, Initstepsize, 'r', 0); O_(SolversSMLS, Finalstepsize, 'r', 0);
    O_(SolversSMLS, Num_pre_BB, 'i', 0); O_(SolversSMLS, BBratio, 'r', 0); O_(SolversSMLS, Num_pre_funs, 'i', 0); O_(SolversSMLS, PreFunsAccuracy, 'r', 0); O_(SolversSMLS, InitSteptype, 'e', INITSTEPSIZESETSMLENGTH); }
static void oTR(Opts &o, SolversSMTR *b) { oSM(o, b); O_(SolversSMTR, Acceptence_Rho, 'r', 0); O_(SolversSMTR, Shrinked_tau, 'r', 0); O_(SolversSMTR, Magnified_tau, 'r', 0); O_(SolversSMTR, minimum_Delta, 'r', 0); O_(SolversSMTR, maximum_Delta, 'r', 0); O_(SolversSMTR, useRand, 'b', 0); O_(SolversSMTR, Max_Inner_Iter, 'i', 0); O_(SolversSMTR, Min_Inner_Iter, 'i', 0); O_(SolversSMTR, theta, 'r', 0); O_(SolversSMTR, kappa, 'r', 0); O_(SolversSMTR, initial_Delta, 'r', 0); }
static void oNSM(Opts &o, SolversNSM *b) { oBase(o, b); O_(SolversNSM, Stop_Criterion, 'e', STOPCRITNNSMLENGTH); }
static void oSub(Opts &o, SolversNSMSub *b) { oNSM(o, b); O_(SolversNSMSub, Diffx, 'r', 0); O_(SolversNSMSub, NumExtraGF, 'i', 0); }
static void oSubLS(Opts &o, SolversNSMSubLS *b) { oSub(o, b); O_(SolversNSMSubLS, Eps, 'r', 0); O_(SolversNSMSubLS, Theta_eps, 'r', 0); O_(SolversNSMSubLS, Min_Eps, 'r', 0); O_(SolversNSMSubLS, Del, 'r', 0); O_(SolversNSMSubLS, Theta_del, 'r', 0); O_(SolversNSMSubLS, LS_alpha, 'r', 0); O_(SolversNSMSubLS, LS_beta, 'r', 0); O_(SolversNSMSubLS, Minstepsize, 'r', 0); O_(SolversNSMSubLS, Maxstepsize, 'r', 0); O_(SolversNSMSubLS, lambdaLower, 'r', 0); O_(SolversNSMSubLS, lambdaUpper, 'r', 0); }
static void oPG(Opts &o, SolversNSMPGLS *b) { oNSM(o, b); O_(SolversNSMPGLS, Variant, 'e', RPGVARIANTLENGTH); o.back().n = "RPGVariant"; O_(SolversNSMPGLS, LS_ratio, 'r', 0); O_(SolversNSMPGLS, LS_alpha, 'r', 0); O_(SolversNSMPGLS, Minstepsize, 'r', 0); }
template <class T> static void qn(Opts &o, T *b) { O_(T, isconvex, 'b', 0); O_(T, nu, 'r', 0); O_(T, mu, 'r', 0); }
static void opts(Opts &o, RSD *b) { oLS(o, b); }
static void opts(Opts &o, RNewton *b) { oLS(o, b); O_(RNewton, useRand, 'b', 0); O_(RNewton, Max_Inner_Iter, 'i', 0); O_(RNewton, Min_Inner_Iter, 'i', 0); O_(RNewton, theta, 'r', 0); O_(RNewton, kappa, 'r', 0); }
static void opts(Opts &o, RCG *b) { oLS(o, b); O_(RCG, RCGmethod, 'e', RCGMETHODSLENGTH); }
static void opts(Opts &o, RBroydenFamily *b) { oLS(o, b); qn(o, b); }
static void opts(Opts &o, RWRBFGS *b) { oLS(o, b); qn(o, b); }
static void opts(Opts &o, RBFGS *b) { oLS(o, b); qn(o, b); }
static void opts(Opts &o, LRBFGS *b) { oLS(o, b); qn(o, b); O_(LRBFGS, LengthSY, 'i', 0); O_(LRBFGS, LMrestart, 'b', 0); }
static void opts(Opts &o, RTRSD *b) { oTR(o, b); }
static void opts(Opts &o, RTRNewton *b) { oTR(o, b); }
static void opts(Opts &o, RTRSR1 *b) { oTR(o, b); }
static void opts(Opts &o, LRTRSR1 *b) { oTR(o, b); O_(LRTRSR1, LengthSY, 'i', 0); O_(LRTRSR1, LMrestart, 'b', 0); }
static void opts(Opts &o, RBFGSSub *b) { oSubLS(o, b); }
static void opts(Opts &o, LRBFGSSub *b) { oSubLS(o, b); O_(LRBFGSSub, LengthSY, 'i', 0); }
static void opts(Opts &o, RGS *b) { oSubLS(o, b); }
static void opts(Opts &o, ManPG *b) { oPG(o, b); }
static void opts(Opts &o, AManPG *b) { oPG(o, b); O_(AManPG, SGIterGap, 'i', 0); }
static bool run(const std::string &id) { return R.only.empty() || id.compare(0, R.only.size(), R.only) == 0; }
static double value(const Opt &o, Rng &g) { switch (o.kind) { case 'r': { static const double v[] = {0.37, 1e-9, -2.75, 3.5e8, 0.999, 17, 0}; return g.i(3) ? v[g.i(7)] : g.n(); } case 'i': return 1 + g.i(5000); case 'b': return g.i(3) == 0 ? 0 : g.i(2) ? 1 : 2; default: return g.i(o.lim); } }
static bool same(const Opt &o, const char *p, double v) { if (o.kind == 'r') { double d; memcpy(&d, p, 8); return d == v; } if (o.kind == 'b') { bool b; memcpy(&b, p, sizeof b); return b == ((long)v != 0); } if (o.sz == 8) { long long l; memcpy(&l, p, 8); return l == (long long)v; } int l; memcpy(&l, p, 4); return l == (int)v; }
template <class S> static void solver(const char *nm, const Problem *P, const Variable *x) {
    std::string base = nm; if (!run(base)) return;
    isolated(base + str("|s%d", R.seed), [&]() {
        void *mem = calloc(1, sizeof(S)); S *s = new (mem) S(P, x); char *p = (char *)(void *)s; s->Verbose = NOOUTPUT; Opts o; opts(o, s); Rng g(R.seed * 31 + 7);
        static const char *junk[] = {"tolerance", "Tol", "Max_Iterations", "max_iteration", "LS_Alpha", "LS_", "", "Stop_Criterio", "Delta", "stepsize", "iter", "nf", "isConvex", "LengthS", "Thetaa", "xyz", "HasHHR", "ParamSet", "Initstepsize ", "LineSearch", "OutputGap2"};
        auto check = [&](const std::map<std::string, double> &m, const std::string &id) { std::vector<char> b(p, p + sizeof(S)); PARAMSMAP mm(m.begin(), m.end()); s->SetParams(mm); std::vector<char> mask(sizeof(S), 0);
            for (auto &q : o) { auto it = m.find(q.n); if (it == m.end()) continue; R.ok(id + "/" + q.n, same(q, p + q.off, it->second), str("set to %g", it->second)); for (size_t k = 0; k < q.sz; k++) mask[q.off + k] = 1; }
            for (size_t k = 0; k < sizeof(S); k++) if (!mask[k] && p[k] != b[k]) { std::string w = str("byte %d", (int)k); for (auto &q : o) if (k >= q.off && k < q.off + q.sz) w = q.n; R.ok(id + "/unnamed-option", false, w + " changed by " + (m.empty() ? "" : m.begin()->first) + str(" (%d names)", (int)m.size())); return; }
            R.ok(id + "/unnamed-option", true); };
        for (auto &q : o) for (int r = 0; r < 4; r++) check({{q.n, value(q, g)}}, base + "|single");
        for (auto j : junk) check({{j, g.i(2) ? 1 : 0.123}}, base + "|unknown");
        check({}, base + "|empty");
        for (int r = 0; r < (R.thorough ? 300 : 80); r++) { std::map<std::string, double> m; for (auto &q : o) if (g.i(3) == 0) m[q.n] = value(q, g); if (g.i(2)) m[junk[g.i(21)]] = 1; check(m, base + "|many"); }
    });
}
static void mani(const MC &c, int maxset) {
    if (!run(c.name)) return;
    isolated(c.name + str("|s%d", R.seed), [&]() {
        auto run1 = [&](PARAMSMAP m, int hhr, const std::string &what, const std::function<void(Manifold *)> &ref) {
            Manifold *a = c.make(), *b = c.make(); a->SetHasHHR(hhr); b->SetHasHHR(hhr); ref(b); a->SetParams(m); // state: flags and enums after the common base part
            std::string id = c.name + "|" + what; R.ok(id + "/HasHHR", a->HasHHR == b->HasHHR, str("%d vs %d", a->HasHHR, b->HasHHR)); R.ok(id + "/representation", a->IsIntrApproach == b->IsIntrApproach); R.ok(id + "/dimensions", a->IntrinsicDim == b->IntrinsicDim && a->ExtrinsicDim == b->ExtrinsicDim && a->name == b->name);
            auto enums = [](Manifold *m) { std::vector<int> v; if (auto s = dynamic_cast<Stiefel *>(m)) v = {s->metric, s->retraction, s->VecTran}; else if (auto s = dynamic_cast<CStiefel *>(m)) v = {s->metric, s->retraction, s->VecTran}; else if (auto s = dynamic_cast<SPDManifold *>(m)) v = {s->metric, s->retr, s->VecTran}; else if (auto s = dynamic_cast<SymFixedRankQ *>(m)) v = {s->metric, s->VecTran}; else if (auto s = dynamic_cast<CSymFixedRankQ *>(m)) v = {s->metric, s->VecTran}; return v; };
            R.ok(id + "/metric-retraction-transport", enums(a) == enums(b)); };
        for (int h = 0; h < 2; h++) { for (double v : {0.0, 1.0, 2.0}) run1({{"HasHHR", v}}, h, "HasHHR", [&](Manifold *m) { m->HasHHR = v != 0; });
            for (const char *u : {"hasHHR", "HHR", "Has", "metric", "Tolerance", "ParamSe", ""}) run1({{u, 1}}, h, "unknown", [](Manifold *) {}); run1({}, h, "empty", [](Manifold *) {});
            for (int k = 1; k <= maxset; k++) for (int w = 0; w < 2; w++) { PARAMSMAP m{{"ParamSet", (double)k}}; if (w) m["nonsense"] = 3; run1(m, h, "ParamSet", [&](Manifold *q) {
                if (auto s = dynamic_cast<Sphere *>(q)) { k == 1 ? s->ChooseParamsSet1() : k == 2 ? s->ChooseParamsSet2() : k == 3 ? s->ChooseParamsSet3() : s->ChooseParamsSet4(); }
                else if (auto s = dynamic_cast<Stiefel *>(q)) { k == 1 ? s->ChooseParamsSet1() : k == 2 ? s->ChooseParamsSet2() : k == 3 ? s->ChooseParamsSet3() : k == 4 ? s->ChooseParamsSet4() : s->ChooseParamsSet5(); }
                else if (auto s = dynamic_cast<CStiefel *>(q)) { k == 1 ? s->ChooseParamsSet1() : k == 2 ? s->ChooseParamsSet2() : k == 3 ? s->ChooseParamsSet3() : s->ChooseParamsSet4(); }
                else if (auto s = dynamic_cast<SymFixedRankQ *>(q)) { k == 1 ? s->ChooseParamsSet1() : k == 2 ? s->ChooseParamsSet2() : k == 3 ? s->ChooseParamsSet3() : k == 4 ? s->ChooseParamsSet4() : k == 5 ? s->ChooseParamsSet5() : s->ChooseParamsSet6(); }
                else if (auto s = dynamic_cast<CSymFixedRankQ *>(q)) { k == 1 ? s->ChooseParamsSet1() : k == 2 ? s->ChooseParamsSet2() : k == 3 ? s->ChooseParamsSet3() : s->ChooseParamsSet4(); } }); }
        }
        // the documented meaning of the sets
    });
}
// documented meaning of each parameter set (headers)
static void sets() {
    auto st = [&](const char *n, Manifold *m, int k, int metric, int retr, int vt, int in) { std::string id = str("%s|set%d", n, k); if (!run(id)) return; for (int by = 0; by < 2; by++) { m->SetParams({{"ParamSet", (double)k}}); auto e = [&](int a, int b, int c) { R.ok(id + "/documented", a == metric && b == retr && c == vt && (in < 0 || m->IsIntrApproach == (in != 0)), str("%d %d %d %d", a, b, c, m->IsIntrApproach)); };
        if (auto s = dynamic_cast<Stiefel *>(m)) e(s->metric, s->retraction, s->VecTran); else if (auto s = dynamic_cast<CStiefel *>(m)) e(s->metric, s->retraction, s->VecTran); else if (auto s = dynamic_cast<SymFixedRankQ *>(m)) e(s->metric, retr, s->VecTran); else if (auto s = dynamic_cast<CSymFixedRankQ *>(m)) e(s->metric, retr, s->VecTran); m->SetParams({{"ParamSet", 1.0}}); } };
    Stiefel S(5, 2); CStiefel C(5, 2); Sphere P(4); SymFixedRankQ Q(5, 2); CSymFixedRankQ D(5, 2);
    st("Stiefel", &S, 1, STIE_EUCLIDEAN, STIE_QF, STIE_PARALLELIZATION, 1); st("Stiefel", &S, 2, STIE_EUCLIDEAN, STIE_QF, STIE_PROJECTION, 0); st("Stiefel", &S, 3, STIE_EUCLIDEAN, STIE_POLAR, STIE_PARALLELIZATION, 1); st("Stiefel", &S, 4, STIE_EUCLIDEAN, STIE_POLAR, STIE_PROJECTION, 0);
    { int m = S.metric; (void)m; S.SetParams({{"ParamSet", 5.0}}); R.ok("Stiefel|set5/documented", S.retraction == STIE_CAYLEYR && S.VecTran == STIE_CAYLEYVT && !S.IsIntrApproach); }
    st("CStiefel", &C, 1, CSTIE_EUCLIDEAN, CSTIE_QF, CSTIE_PARALLELIZATION, 1); st("CStiefel", &C, 2, CSTIE_EUCLIDEAN, CSTIE_QF, CSTIE_PROJECTION, 0); st("CStiefel", &C, 3, CSTIE_EUCLIDEAN, CSTIE_POLAR, CSTIE_PARALLELIZATION, 1); st("CStiefel", &C, 4, CSTIE_EUCLIDEAN, CSTIE_POLAR, CSTIE_PROJECTION, 0);
    st("Sphere", &P, 1, STIE_EUCLIDEAN, STIE_QF, STIE_PARALLELIZATION, 1); st("Sphere", &P, 2, STIE_EUCLIDEAN, STIE_EXP, STIE_PARALLELTRANSLATION, 0); st("Sphere", &P, 3, STIE_EUCLIDEAN, STIE_QF, STIE_PARALLELTRANSLATION, 0); st("Sphere", &P, 4, STIE_EUCLIDEAN, STIE_QF, STIE_PARALLELTRANSLATION, 0);
    int qm[3] = {SFRANKQEUC, SFRANKQHGZ, SFRANKQQEUC}; for (int k = 1; k <= 6; k++) st("SymFixedRankQ", &Q, k, qm[(k - 1) % 3], 0, k <= 3 ? SFRANKQPARALLELIZATION : SFRANKQPROJECTION, -1);
    int cm[2] = {CSFRANKQEUC, CSFRANKQHGZ}; for (int k = 1; k <= 4; k++) st("CSymFixedRankQ", &D, k, cm[(k - 1) % 2], 0, k <= 2 ? CSFRANKQPARALLELIZATION : CSFRANKQPROJECTION, -1);
}
void prop_C19() {
    genrandseed(5); integer n = 5, p = 2; Vector B(n, n), Dg(p); Rng g(3); randfill(B, g); { Mx<double> m = mx<double>(B); setmx(B, m + H(m)); } randfill(Dg, g); StieBrockett P(B, Dg); Stiefel M(n, p); P.SetDomain(&M); Variable x = M.RandominManifold();
    solver<RSD>("RSD", &P, &x); solver<RNewton>("RNewton", &P, &x); solver<RCG>("RCG", &P, &x); solver<RBroydenFamily>("RBroydenFamily", &P, &x); solver<RWRBFGS>("RWRBFGS", &P, &x); solver<RBFGS>("RBFGS", &P, &x); solver<LRBFGS>("LRBFGS", &P, &x);
    solver<RTRSD>("RTRSD", &P, &x); solver<RTRNewton>("RTRNewton", &P, &x); solver<RTRSR1>("RTRSR1", &P, &x); solver<LRTRSR1>("LRTRSR1", &P, &x); solver<RBFGSSub>("RBFGSSub", &P, &x); solver<LRBFGSSub>("LRBFGSSub", &P, &x); solver<RGS>("RGS", &P, &x); solver<ManPG>("ManPG", &P, &x); solver<AManPG>("AManPG", &P, &x);
    std::set<std::string> seen; for (auto &c : manifolds(R.thorough)) { if (!seen.insert(c.name).second) continue; int k = c.name.find("Prod") == 0 ? 0 : c.name.find("CStiefel") == 0 ? 4 : c.name.find("Stiefel") == 0 ? 5 : c.name.find("SphereTx") == 0 ? 0 : c.name.find("Sphere") == 0 ? 4 : c.name.find("CSymFixedRankQ") == 0 ? 4 : c.name.find("SymFixedRankQ") == 0 ? 6 : 0; mani(c, k); }
    sets();
}
