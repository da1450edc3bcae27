"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "Manifolds/"
ALLM = [M + x for x in ("Manifold.cpp", "Euclidean.cpp", "Sphere.cpp", "SphereTx.cpp", "Stiefel.cpp", "CStiefel.cpp", "Grassmann.cpp", "SPDManifold.cpp",
                        "FixedRankE.cpp", "FixedRankQ2F.cpp", "CFixedRankQ2F.cpp", "SymFixedRankQ.cpp", "CSymFixedRankQ.cpp", "MultiManifolds.cpp")]
TESTS = ("the suite runs each solver on a handful of fixed-seed problems and passes when the final gradient is small, so an operation that is "
         "slightly wrong, or wrong only for a size, option, direction or call order the run never meets, still converges and passes")
P = {}


def prop(id, title, statement, over, qtext, why, files, mech):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                 anchors={"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]})


prop("C01", "Elements and variables behave as values although they share memory",
     "Copying an element (or a variable, vector or operator) gives an independent value: whatever is later written through one of the two - entries, a sub-block, "
     "a component of a product that was first made writable, attached data - is never visible through the other, and the operation leaves in the written one exactly the entries it documents.",
     ["histories", "inputs"], "every sequence of copies, assignments, shared components and writes on real, complex and product elements of any size",
     "sharing is only exposed by particular orders of copy and write on particular shapes; the tests never inspect the other owner", [M + "SmartSpace.cpp", M + "Element.cpp"],
     ["reference-counted storage with copy on write in SmartSpace::CopyOnWrite / NewMemoryOnWrite, Element::ObtainWrite*Data"])
prop("C02", "Data attached to an element never survives a change of its entries",
     "A factorisation or other data attached to an element is only ever returned for the entries it was computed from: every operation that changes the entries also discards "
     "it, and a factorisation that is returned reproduces the current entries (Q R, U S V', L L', P L U, eigenpairs, Schur form).",
     ["histories", "inputs"], "every sequence of factorise / write / copy / re-read on elements of any size and kind",
     "a stale factor only matters when a write falls between two uses, and a run that recomputes or recovers hides it", [M + "Element.cpp"],
     ["Fields map cleared by ObtainWriteEntireData/ObtainWritePartialData/CopyOnWrite; decompositions stored under _Q,_R,_HHR,_U,_S,_Vt,_L,..."])
prop("C03", "Matrix operations on elements compute what they are documented to compute",
     "Every arithmetic operation on elements - sums, scaled products with transposes, conjugates, sub-blocks, diagonal scalings, rank-one updates, triangular and Sylvester "
     "solves, inner products and norms - equals its textbook definition for all compatible shapes, real and complex, without touching its operands.",
     ["inputs"], "all shapes, entries, scalars and transpose flags, real and complex, including operands that are copies of the result (an operand that is the result object itself is outside)",
     "each optimisation run uses a few shapes and flags; a wrong branch for another flag, shape or field is not reached", [M + "Element.cpp"],
     ["BLAS/LAPACK calls with leading dimensions and flags in Element.cpp"])
prop("C04", "Tangent projection is the orthogonal projection onto the tangent space",
     "Projecting any ambient vector at a point of a manifold returns a tangent vector at that point, leaves vectors that are already tangent unchanged, and removes only a part that is "
     "orthogonal to every tangent vector; in intrinsic representation it is the identity.",
     ["inputs", "configurations"], "all manifold classes and parameter sets, all sizes, points and ambient vectors", TESTS, ALLM,
     ["Projection / ExtrProjection / IntrProjection of each manifold"])
prop("C05", "Retractions stay on the manifold and agree with the direction to first order",
     "Moving from a point along any tangent vector returns a point of the manifold; moving along the zero vector returns the starting point, and the derivative of the motion at zero "
     "is the tangent vector itself.",
     ["inputs", "configurations"], "all manifold classes and their retractions, metrics and representations, all sizes, points and tangent vectors", TESTS, ALLM,
     ["Retraction of each manifold (QF, polar, Cayley, exponential, second-order, projection)"])
prop("C06", "The Riemannian gradient represents the Euclidean gradient in the chosen metric",
     "Converting a Euclidean gradient at a point returns a tangent vector whose inner product, in the metric in use, with every tangent vector equals the directional derivative given by "
     "the Euclidean gradient; what is kept for the Hessian conversion is that Euclidean gradient and owns its memory.",
     ["inputs", "configurations"], "all manifold classes and metrics, all sizes, points, Euclidean gradients and tangent vectors", TESTS, ALLM + ["Problems/Problem.cpp"],
     ["EucGradToGrad of each manifold; Problem::Grad"])
prop("C07", "The Riemannian Hessian conversion gives the second derivative along the manifold",
     "Converting the Euclidean Hessian action along a tangent vector returns a tangent vector whose metric inner product with every tangent vector equals the second-order derivative of the "
     "cost along the geodesics (or the documented second-order curves) of the metric in use; the resulting operator is linear and self-adjoint.",
     ["inputs", "configurations"], "all manifold classes with a Hessian conversion, all metrics, sizes, points, gradients, Hessian actions and tangent vectors", TESTS,
     ALLM + ["Problems/Problem.cpp"], ["EucHvToHv of each manifold; Problem::HessianEta"])
prop("C08", "Intrinsic and extrinsic representations are inverse and isometric",
     "Reducing a tangent vector to its intrinsic coordinates and expanding it again returns the same vector, expanding and reducing returns the same coordinates, the expansion is always "
     "tangent, and the inner product is the same in both representations, with or without cached factorisations at the point.",
     ["inputs", "configurations", "histories"], "all manifold classes and metrics with an intrinsic representation, all sizes, points, vectors and cache states", TESTS, ALLM,
     ["ObtainIntr / ObtainExtr / ObtainNorVerIntr / ObtainNorVerExtr"])
prop("C09", "Vector transports land in the new tangent space and match their inverses",
     "Transporting a tangent vector along a step returns a tangent vector at the new point; transports declared isometric preserve inner products, the inverse undoes the transport, an "
     "operator transported with the step acts as transport after operator after inverse transport, and with the locking option the transport of the step matches the differentiated "
     "retraction up to the stored scalar.",
     ["inputs", "configurations"], "all manifold classes and vector transports, with and without the locking condition, all sizes, steps, vectors and operators", TESTS, ALLM,
     ["VectorTransport, InverseVectorTransport, HInvTran, TranH, TranHInvTran, Beta, LC* in Manifold.cpp"])
prop("C10", "The differentiated retraction is the derivative of the retraction",
     "At any point, step and direction the differentiated retraction returns the derivative of the moved point with respect to the step in that direction, it is tangent at the new point, "
     "and where the cotangent map is provided it is its adjoint.",
     ["inputs", "configurations"], "all manifold classes and retractions that provide it, all sizes, points, steps and directions", TESTS, ALLM,
     ["DiffRetraction, coTangentVector"])
prop("C11", "Product manifolds act component by component",
     "Every operation on a product of manifolds equals performing it on each component with that component's own manifold and options - sums for inner products - in both representations, "
     "for any number and multiplicity of components, and leaves the components' options as they were.",
     ["inputs", "configurations"], "all products (kinds, multiplicities, nesting of representations), all points and vectors",
     "the product examples in the suite use one or two component kinds and only the operations their solver calls", [M + "MultiManifolds.cpp"],
     ["loops over manifolds and powers in MultiManifolds.cpp"])
prop("C12", "An accepted line-search step satisfies its acceptance condition",
     "Whenever a line search reports success, the returned step length satisfies the configured acceptance conditions (sufficient decrease, and the Wolfe or strong Wolfe slope condition "
     "where selected) for the function values and slopes at the returned point, and the stored iterate, function value and gradient are those of that step.",
     ["inputs", "histories", "configurations"], "every line-search method and parameter setting, every sequence of function values and slopes met during the search",
     "the suite's functions take the ordinary branch of each search; brackets, safeguards and restarts need particular sequences of values", ["Solvers/SolversSMLS.cpp", "Solvers/SolversSMLS.h"],
     ["LinesearchArmijo, LinesearchWolfe/Zoom, LinesearchStrongWolfe, LinesearchExact in SolversSMLS.cpp"])
prop("C13", "Trust-region steps stay inside the region and are judged by the right ratio",
     "The truncated conjugate-gradient step never exceeds the trust-region radius, reports its stop reason correctly, does not increase the model, and the iterate is accepted and the radius changed "
     "exactly by the ratio of actual to predicted reduction with the configured thresholds.",
     ["inputs", "histories", "configurations"], "all models (definite, indefinite, singular), radii, thresholds and histories", "the suite's problems exercise few of the exits and few ratios",
     ["Solvers/SolversSMTR.cpp"], ["SolversSMTR::Run, tCG_TR, PreConditioner, InitialVector"])
prop("C14", "A run reports the iterate, counters and stop reason it really reached",
     "When a run ends, the reported point, function value and gradient norm belong together, the function, gradient, Hessian and retraction counters equal the number of evaluations performed, the recorded series match the "
     "iterates, and the run stopped for a reason that is true of the final state.",
     ["histories", "configurations"], "all solvers, stop criteria and iteration histories", "the suite only looks at the final gradient", ["Solvers/Solvers.cpp", "Solvers/SolversSM.cpp", "Solvers/SolversSMLS.cpp", "Solvers/SolversSMTR.cpp"],
     ["counters and stop tests in Solvers*/Run"])
prop("C15", "Quasi-Newton and conjugate-gradient updates follow their formulas",
     "The updated (inverse) Hessian approximation satisfies the secant equation in the transported space, stays symmetric and - when the update is accepted - positive definite for BFGS-type methods, the limited-memory "
     "recursions equal the corresponding full update, and each search direction is the documented combination (and a descent direction where promised).",
     ["inputs", "histories"], "all steps, gradient differences, memory sizes and histories", "a wrong coefficient slows convergence but the runs still reach the tolerance",
     ["Solvers/RBFGS.cpp", "Solvers/RBroydenFamily.cpp", "Solvers/RWRBFGS.cpp", "Solvers/LRBFGS.cpp", "Solvers/RCG.cpp", "Solvers/RTRSR1.cpp", "Solvers/LRTRSR1.cpp", "Solvers/SolversSM.cpp", "Solvers/SolversSMLS.cpp"],
     ["UpdateData, GetSearchDir, HvRBFGS, HvLRBFGS, HvLRTRSR1"])
prop("C16", "Bundled problems report the derivatives of their own cost",
     "For every bundled cost function, the Euclidean gradient is the derivative of (the smooth part of) the cost and, where the cost is twice differentiable, the Euclidean Hessian action is the derivative "
     "of that gradient, at every point and for every history of evaluations in which the cost at a point is evaluated before its gradient and the gradient before its Hessian; Grad and HessianEta are these "
     "derivatives converted by the domain, and numerical differentiation agrees with them.",
     ["inputs", "histories"], "all bundled problems, data, sizes, points and directions, any evaluation history", "a gradient that is wrong by a term that vanishes near the solution still converges",
     ["Problems/" + x for x in ("Problem.cpp", "StieBrockett.cpp", "CStieBrockett.cpp", "EucQuadratic.cpp", "GrassRQ.cpp", "SPDKarcherMean.cpp", "SphereConvexHull.cpp", "SphereSparsestVector.cpp",
                                "SphereTxRQ.cpp", "StieSPCA.cpp", "SFRQLyapunov.cpp", "FRankESparseApprox.cpp", "FRankEWeightApprox.cpp", "FRankQ2FMatCompletion.cpp", "CFRankQ2FBlindDecon2D.cpp", "CSFRQPhaseRetrieval.cpp",
                                "ProdStieSumBrockett.cpp")],
     ["f, EucGrad, EucHessianEta of each problem; numerical differentiation in Problem.cpp"])
prop("C18", "Numerical utilities compute their definitions",
     "The wavelet transform and its inverse are mutually inverse and isometric, spline interpolation passes through its knots with the stated end conditions and consistent derivatives, and sparse products "
     "equal their dense counterparts, for all sizes and data.",
     ["inputs"], "all sizes and data", "the suite calls them with one size and never checks the value", ["Others/wavelet/wavelet.cpp", "Others/Spline.cpp", "Others/SparseMatrix.cpp", "Others/SparseBLAS/nist_spblas.h", "Others/SparseBLAS/nist_spblas.cpp"],
     ["haarFWT_*, Spline::SplineUniform*, SparseMatrix"])
prop("C19", "Parameters given by name set exactly the named option",
     "Setting parameters through the name-value map changes exactly the options named, to the values given, and leaves all others (and unknown names) without effect, for manifolds and solvers alike.",
     ["inputs", "configurations"], "all option names and values", "the suite sets few options and cannot see one that is ignored or mis-assigned", ["Solvers/*.cpp", "Manifolds/*.cpp"], ["SetParams of each class"])
prop("C20", "Nonsmooth building blocks satisfy their optimality conditions",
     "The proximal mapping and its generalized Jacobian match the l1 proximal problem, and the minimum-norm vector returned for a set of vectors lies in their convex hull and is optimal to the tolerance.",
     ["inputs"], "all vectors, weights and memory sizes", "the suite checks only the final result of a few runs", ["Others/MinPNormConHull.cpp", "Problems/Problem.cpp", "Problems/StieSPCA.cpp"],
     ["MinPNormConHull*, Problem::ProxW, CalJW"])

PROVED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20"}
NOTE_B = ("No obligation of this property is discharged by the verifier yet: the contracts (pre- and postconditions of the listed functions) are evaluated on the real compiled code "
          "by a bounded harness over generated inputs and histories; the evidence file states the bounds. Not counted as proved.")
TECH = "contract-based deductive verification of the extracted source (symbolic execution + exact *-algebra rewriting + z3), bounded replay harness"
NOTE = ("Proof over the real numbers for all sizes and inputs of the obligations listed in the evidence file, generated on every run from /repo's source (clang AST); assumes the contracts of the "
        "BLAS/LAPACK and Element operations named there. Functions out of reach are covered only by the bounded harness and are listed as such, never counted as proved.")
CLAIMED = [l.strip() for l in open(os.path.join(V, "lib", "claimed.txt")) if l.strip() and not l.startswith("#")]
NA = {}
for l in open(os.path.join(V, "lib", "na.txt")):
    if l.strip():
        k, r = l.strip().split(" ", 1)
        NA[k] = r

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            f.write(json.dumps(P[k]) + "\n")
    checks = [dict(property=k, quick_cmd="python3-vt check.py " + k, thorough_cmd="python3-vt check.py %s --thorough" % k, technique=TECH, level="proof" if k in PROVED else "exploration", level_note=NOTE if k in PROVED else NOTE_B) for k in sorted(CLAIMED)]
    man = dict(version=1, setup_cmd="python3-vt lib/buildh.py && python3-vt -c \"import sys; sys.path.insert(0,'rvc'); import specs; specs.load()\"",
               checks=checks, not_applicable=[dict(property=k, reason=NA.get(k, "not yet claimed: machinery under construction")) for k in sorted(P) if k not in CLAIMED],
               hooks=dict(guard="none", enable="no hooks: checks read and compile /repo's unmodified sources", source_commits=[]),
               notes="See DESIGN.md. known-findings.txt lists recorded findings and the defects repaired in /repo.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
