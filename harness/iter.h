#ifndef ITER_H
#define ITER_H
#include "mani.h"
static void each(const std::function<void(MC &, Manifold *, Variable &, Rng &, const std::string &)> &f, bool hhr = false) {
    for (auto &c : manifolds(R.thorough)) {
        if (hhr && !c.hhr) continue;
        int reps = R.thorough ? 4 : 2;
        for (int k = 0; k < reps; k++) {
            std::string id = c.name + (hhr ? "+HHR" : "") + str("|s%d", R.seed * 100 + k);
            if (!R.only.empty() && id.compare(0, R.only.size(), R.only)) continue;
            isolated(id, [&]() { Rng g(R.seed * 1000 + k * 7 + std::hash<std::string>()(c.name) % 1000);
            Manifold *M = c.make();
            if (hhr) M->SetHasHHR(true);
            { Variable x = randPt(M, g); MC c2 = c;
              if (c.well) for (int t = 0; t < 500; t++) { Mx<double> Y = mx<double>(x); if (fro(Y) < 30 && fro(inv(Y)) < 4) break; x = randPt(M, g); }
              if (c.small) { // the rank-p projection is only defined near x: well conditioned point, small steps
                  for (int t = 0; t < 200; t++) { Mx<cd> Y = x.Getiscomplex() ? mx<cd>(x) : cplx(mx<double>(x)); if (fro(Y) * fro(inv(H(Y) * Y)) * fro(Y) < 40) break; x = randPt(M, g); }
                  c2.sc = 0.01; }
              f(c2, M, x, g, id); } });
            // products keep their component manifolds alive: deliberately not deleted
        }
    }
}
#endif
