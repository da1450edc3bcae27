From e85df8f73a1055f068f9de70484051234a235389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 01/62] fix: Element::HaddRankone copies shared memory and
 drops cached fields before writing

---
 Manifolds/Element.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 40d25ab..06fd422 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1616,8 +1616,9 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = ObtainWritePartialData();
 
-        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, Space, &m);
+        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, thisptr, &m);
         
         return *this;
     };
@@ -1631,9 +1632,10 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = ObtainWritePartialData();
 
         ger_(&m, &n, &scalar, const_cast<realdpcomplex *> ((realdpcomplex *) uptr), &GLOBAL::IONE, const_cast<realdpcomplex *> ((realdpcomplex *) vptr), &GLOBAL::IONE,
-                 (realdpcomplex *) Space, &m);
+                 (realdpcomplex *) thisptr, &m);
         
         return *this;
     };
-- 
2.43.0


From 7ca0abf2be3c856aea4676280e26dc2804a653dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 02/62] fix: the exponential retraction of the sphere at the
 zero tangent vector is the base point, not NaN

---
 Manifolds/Sphere.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index a528d33..b8b5a21 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -58,6 +58,11 @@ namespace ROPTLIB{
 	Variable &Sphere::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+		{
+			*result = x;
+			return *result;
+		}
 		VectorLinearCombination(x, cos(normetax), x, sin(normetax) / normetax, etax, result);
 		realdp normresult = sqrt(Metric(x, *result, *result));
 		return ScalarTimesVector(x, static_cast<realdp> (1) / normresult, *result, result);
@@ -68,6 +73,11 @@ namespace ROPTLIB{
 		realdp xiytx = Metric(x, x, xiy);
 		realdp xiytetax = Metric(x, xiy, etax);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+		{
+			*result = xiy;
+			return Projection(x, *result, result);
+		}
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
 		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
@@ -79,6 +89,11 @@ namespace ROPTLIB{
 	{
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+		{
+			*result = xix;
+			return *result;
+		}
 		realdp sinnormetax = sin(normetax);
         VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
         ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
-- 
2.43.0


From ef8376c6167235ff5c13f35df3880026eb05a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 03/62] fix: a product retraction in extrinsic mode restores
 the representation flag of each component

---
 Manifolds/MultiManifolds.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 4a53cd0..b95e445 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -214,9 +214,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool IsIntr = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(IsIntr);
             }
         }
         return *result;
@@ -241,9 +242,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool IsIntr = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(IsIntr);
             }
         }
         
-- 
2.43.0


From dcb26be16ce354e5ac095cc4b1265c1b36f2e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 04/62] fix: the transported operator of a product manifold is
 computed from the given operator

---
 Manifolds/MultiManifolds.cpp | 2 +-
 Manifolds/Sphere.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index b95e445..85a1836 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -389,7 +389,7 @@ namespace ROPTLIB{
 		if (HasHHR)
 			return LCTranHInvTran(x, etax, y, Hx, result);
 
-        result->CopyOnWrite();
+        *result = Hx;
         
 		integer start, end = 0;
 		for (integer i = 0; i < numoftypes; i++)
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index b8b5a21..2255b34 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -155,7 +155,7 @@ namespace ROPTLIB{
 		realdp *resultL = result->ObtainWritePartialData();
 		/* resultL(:, start : start + length - 1) <- scalar * Hxpy * xv^T + resultL(:, start : start + length - 1),
 		details: www.netlib.org/lapack/explore-html/dc/da8/ger_8f.html */
-		ger_(&length, &ell, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
+		ger_(&ell, &length, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
 
 		delete[] Hxpy;
         return *result;
-- 
2.43.0


From b6b91218a97a1ade68256849ef4f50650a89da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 05/62] fix: the locking scalar of a product manifold overrides
 the base class and measures the result at the target point

---
 Manifolds/MultiManifolds.cpp | 6 +++---
 Manifolds/MultiManifolds.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 85a1836..39fdacf 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -268,7 +268,7 @@ namespace ROPTLIB{
         return *result;
 	};
 
-	realdp MultiManifolds::Beta(const Variable &x, Vector &etax) const
+	realdp MultiManifolds::Beta(const Variable &x, const Vector &etax) const
 	{
 		if (!HasHHR)
 			return 1;
@@ -320,9 +320,9 @@ namespace ROPTLIB{
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
diff --git a/Manifolds/MultiManifolds.h b/Manifolds/MultiManifolds.h
index b10c763..0b0490e 100644
--- a/Manifolds/MultiManifolds.h
+++ b/Manifolds/MultiManifolds.h
@@ -121,7 +121,7 @@ namespace ROPTLIB{
 		/*computes beta = \|etax\| / \|\mathcal{T}_{R_etax} etax\|
 		Default: etax = (etax_1, dots, eta_n);
 		beta = \sqrt(sum \|eta_i\|_2^2) / \sqrt(sum \|\mathcal{T}_{R_{etax_i}} etax_i\|) */
-        virtual realdp Beta(const Variable &x, Vector &etax) const;
+        virtual realdp Beta(const Variable &x, const Vector &etax) const;
 
 		/*compute the distance between two points on the manifold.
 		Default: sqrt(dist_M1(x1_1, x2_2)^2 + dist_M2(x1_2, x2_2)^2 + ... + dist_M1(x1_n, x2_n)^2)
-- 
2.43.0


From 7dd5feb303d3e395f80958f987fc88f9d56fb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 06/62] fix: SPD vector transport honours the locking condition
 option like its inverse

---
 Manifolds/SPDManifold.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 776398c..6a60e2c 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -471,6 +471,9 @@ namespace ROPTLIB{
 
     Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
+        if (HasHHR)
+            return LCVectorTransport(x, etax, y, xix, result);
+
         if (VecTran == SPDPARATRAN)
             return ParallelTranslation(x, etax, y, xix, result);
         
-- 
2.43.0


From 5f2b94e98ab9ba604d2989a623e88a4ed264a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 07/62] fix: SPD parallel translation multiplies the tangent
 vector instead of dropping it

---
 Manifolds/SPDManifold.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 6a60e2c..ccf223e 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -506,7 +506,7 @@ namespace ROPTLIB{
         Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
         LiELiThalf.ScalarTimesThis(0.5);
         Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
-        LiE.AlphaABaddBetaThis(0, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        LiE.AlphaABaddBetaThis(1, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
         result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
         return *result;
     };
-- 
2.43.0


From 71b7fa174889451e1865fbeb6ab342d4e7ea4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 08/62] fix: SPD affine-invariant distance takes the logarithm
 of the eigenvalues

---
 Manifolds/SPDManifold.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index ccf223e..5ff7929 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -444,6 +444,9 @@ namespace ROPTLIB{
         Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
         tmp2.EigenDecomSym();
         Vector EigVals = tmp2.Field("_EigVal");
+        realdp *EigValsptr = EigVals.ObtainWritePartialData();
+        for(integer i = 0; i < n; i++)
+            EigValsptr[i] = std::log(EigValsptr[i]);
         return EigVals.Fnorm();
 	};
 
-- 
2.43.0


From a434f8221d991321ac9b57d0f39097cc0cd8bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 09/62] fix: the Euclidean gradient kept for Hessian conversion
 owns its memory on every manifold

---
 Manifolds/Euclidean.cpp  | 5 ++++-
 Manifolds/FixedRankE.cpp | 5 ++++-
 Manifolds/SphereTx.cpp   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Manifolds/Euclidean.cpp b/Manifolds/Euclidean.cpp
index 9976f3f..2cc3304 100644
--- a/Manifolds/Euclidean.cpp
+++ b/Manifolds/Euclidean.cpp
@@ -140,7 +140,10 @@ namespace ROPTLIB{
 	{
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.*/
+            Vector Sharedegf(egf);
+            Sharedegf.CopyOnWrite();
+            x.AddToFields("EGrad", Sharedegf);
         }
         *result = egf;
         return *result;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..bf47b4b 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -278,7 +278,10 @@ namespace ROPTLIB{
         Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.*/
+            Vector Sharedegf(egf);
+            Sharedegf.CopyOnWrite();
+            x.AddToFields("EGrad", Sharedegf);
         }
         return *result;
 	};
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..86681e1 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -151,7 +151,10 @@ namespace ROPTLIB{
 	{
         if (prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.*/
+            Vector Sharedegf(egf);
+            Sharedegf.CopyOnWrite();
+            x.AddToFields("EGrad", Sharedegf);
         }
         return Projection(x, egf, result);
 	};
-- 
2.43.0


From 3919b802de99bb9d05a61b378b5c5cfb1d7cc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 10/62] fix: the two-factor fixed-rank manifold reports its own
 intrinsic dimension

---
 Manifolds/FixedRankQ2F.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 7691906..ce753c3 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -12,10 +12,11 @@ namespace ROPTLIB{
 		r = inr;
 		name.assign("Fixed-rank manifold by 2-factor form");
 		IsIntrApproach = true;
+		IntrinsicDim = (m + n - r) * r;
         Vector F1(m, r), F2(n, r);
         Vector Prod(2, &F1, 1, &F2, 1);
         EMPTYEXTR = Prod;
-		EMPTYINTR = Vector ((m + n - r) * r);
+		EMPTYINTR = Vector (IntrinsicDim);
 	};
 
     void FixedRankQ2F::CheckParams(void) const
-- 
2.43.0


From 15d33db145fefb19964ca3fbbc243cf13ec1bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 11/62] fix: Element::SubmatrixAssignment keeps the entries
 outside the block when the memory is shared

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 06fd422..88d6227 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2237,7 +2237,7 @@ namespace ROPTLIB{
         assert(rend - rstart + 1 == mat.Getrow() && cend - cstart + 1 == mat.Getcol() && mat.Getiscomplex() == iscomplex);
         const realdp *matptr = mat.ObtainReadData();
         integer matrow = mat.Getrow();
-        this->NewMemoryOnWrite();
+        this->ObtainWritePartialData();
         if(!iscomplex)
         {
             for(integer j = cstart; j <= cend; j++)
-- 
2.43.0


From dd7dd47f7b8eb8874ded7486290f338981e35bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 12/62] fix: Element::Conj copies shared memory and drops
 cached fields before writing

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 88d6227..f50bac7 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1950,7 +1950,8 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex);
         integer num = length / 2;
-        scal_(&num, &GLOBAL::DNONE, Space + 1, &GLOBAL::ITWO);
+        realdp *thisptr = ObtainWritePartialData();
+        scal_(&num, &GLOBAL::DNONE, thisptr + 1, &GLOBAL::ITWO);
         return (*this);
     };
 
-- 
2.43.0


From 43ddf8dc3547796a9cc8c3be9d5c44f2ccfae76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 13/62] fix: Element::ScaledIdOPE drops the fields cached for
 the overwritten entries

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index f50bac7..e95493c 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2861,7 +2861,7 @@ namespace ROPTLIB{
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
-        SmartSpace::NewMemoryOnWrite();
+        NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
         {
-- 
2.43.0


From b2594f0ba420faaa4217a2051164acbf2031d44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 14/62] fix: the real and imaginary parts of a complex element
 are real elements

---
 Manifolds/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index e95493c..56dbcdc 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2546,7 +2546,7 @@ namespace ROPTLIB{
     Element Element::GetRealInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
@@ -2558,7 +2558,7 @@ namespace ROPTLIB{
     Element Element::GetImagInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
-- 
2.43.0


From 13837ce5dc867b2aeb8001a50643f1f5e764be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 15/62] fix: the fixed-rank symmetric retraction accepts ranks
 above half the matrix size

---
 Manifolds/CSymFixedRankQ.cpp | 16 +++++++++++++---
 Manifolds/SymFixedRankQ.cpp  | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 25e9b52..0297bd9 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -256,8 +256,18 @@ namespace ROPTLIB{
             Vector YYp(n, 2 * p, "complex");
             YYp.SubmatrixAssignment(0, n - 1, 0, p - 1, x);
             YYp.SubmatrixAssignment(0, n - 1, p, 2 * p - 1, Yp);
-            YYp.QRDecom();
-            Vector YYp_Q = YYp.Field("_Q"), YYp_R = YYp.Field("_R");
+            integer k = (2 * p < n) ? 2 * p : n;
+            Vector YYp_Q(n, n, "complex"), YYp_R(YYp);
+            if (2 * p <= n)
+            {
+                YYp.QRDecom();
+                YYp_Q = YYp.Field("_Q");
+                YYp_R = YYp.Field("_R");
+            }
+            else
+            { /* [x, Yp] has more columns than rows, no need for an orthonormal basis of its column space */
+                YYp_Q.SetToIdentity();
+            }
 
             Vector Z(2 * p, 2 * p, "complex"), Identity(p, p, "complex");
             Z.SetToZeros();
@@ -267,7 +277,7 @@ namespace ROPTLIB{
             Z.SubmatrixAssignment(p, 2 * p - 1, 0, p - 1, Identity);
             Z = YYp_R * Z * YYp_R.GetTranspose();
             Z.EigenDecomSym();
-            Vector ZD = Z.Field("_EigVal").GetSubmatrix(p, 2 * p - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, 2 * p - 1, p, 2 * p - 1);
+            Vector ZD = Z.Field("_EigVal").GetSubmatrix(k - p, k - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, k - 1, k - p, k - 1);
             Vector ZUD = ZD.GetDiagTimesM(ZU, GLOBAL::R);
             
             /*Find a representation Y such that Y minimize \|X - Y\|_F*/
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f2187ce..c111f7c 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -308,8 +308,18 @@ namespace ROPTLIB{
             Vector YYp(n, 2 * p);
             YYp.SubmatrixAssignment(0, n - 1, 0, p - 1, x);
             YYp.SubmatrixAssignment(0, n - 1, p, 2 * p - 1, Yp);
-            YYp.QRDecom();
-            Vector YYp_Q = YYp.Field("_Q"), YYp_R = YYp.Field("_R");
+            integer k = (2 * p < n) ? 2 * p : n;
+            Vector YYp_Q(n, n), YYp_R(YYp);
+            if (2 * p <= n)
+            {
+                YYp.QRDecom();
+                YYp_Q = YYp.Field("_Q");
+                YYp_R = YYp.Field("_R");
+            }
+            else
+            { /* [x, Yp] has more columns than rows, no need for an orthonormal basis of its column space */
+                YYp_Q.SetToIdentity();
+            }
 
             Vector Z(2 * p, 2 * p), Identity(p, p);
             Z.SetToZeros();
@@ -319,7 +329,7 @@ namespace ROPTLIB{
             Z.SubmatrixAssignment(p, 2 * p - 1, 0, p - 1, Identity);
             Z = YYp_R * Z * YYp_R.GetTranspose();
             Z.EigenDecomSym();
-            Vector ZD = Z.Field("_EigVal").GetSubmatrix(p, 2 * p - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, 2 * p - 1, p, 2 * p - 1);
+            Vector ZD = Z.Field("_EigVal").GetSubmatrix(k - p, k - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, k - 1, k - p, k - 1);
             Vector ZUD = ZD.GetDiagTimesM(ZU, GLOBAL::R);
             
             /*Find a representation Y such that Y minimize \|X - Y\|_F*/
-- 
2.43.0


From c1b75ef78c0e046b784e1b360aed61fc12726190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 16/62] fix: the fixed-rank symmetric manifolds transport
 operators as operators under the locking condition

---
 Manifolds/CSymFixedRankQ.cpp | 2 +-
 Manifolds/SymFixedRankQ.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 0297bd9..bc94632 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -236,7 +236,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: CSymFixedRankQ::TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index c111f7c..5aee71d 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -287,7 +287,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
-- 
2.43.0


From 973536b5d7fd46c8dcb32a0b1779c17777e7ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 17/62] fix: intrinsic vectors of the QEUC metric can be
 expanded before any vector was reduced

---
 Manifolds/SymFixedRankQ.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 5aee71d..80a0c05 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -709,6 +709,12 @@ namespace ROPTLIB{
         }
         
         integer dim = p * (p + 1) / 2;
+        if(!x.FieldsExist("BL"))
+        { /* the basis of the vertical part is attached to x when ObtainIntrQEUC is called */
+            Vector zeroextr(EMPTYEXTR), zerointr(EMPTYINTR);
+            zeroextr.SetToZeros();
+            ObtainIntrQEUC(x, zeroextr, &zerointr);
+        }
         Vector BL = x.Field("BL");
         
         Vector tmp = BL.GetTranspose() % intretax.GetSubmatrix(0, dim - 1, 0, 0);
-- 
2.43.0


From bc09c2907cd4099c4acbcb5814b61862be342780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 18/62] fix: the embedded fixed-rank manifold starts without
 the locking condition (flag was uninitialised)

---
 Manifolds/FixedRankE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index bf47b4b..32f65a0 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -11,6 +11,7 @@ namespace ROPTLIB{
 		r = inr;
 		name.assign("FixedRankEmbedded");
         IsIntrApproach = false;
+        HasHHR = false;
         ExtrinsicDim = n * m;
         IntrinsicDim = (m - r) * r + r * r + (n - r) * r;
         EMPTYEXTR = Vector(m, n);
-- 
2.43.0


From fd99f7779cb59e3f2936e8293da05e755223ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 19/62] fix: the default locking scalar is the one stored by
 the differentiated retraction

---
 Manifolds/Manifold.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 7f2125b..8b854a1 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -159,6 +159,8 @@ namespace ROPTLIB{
         #ifdef CHECKMANIFOLDOVERRIDDEN
                 printf("Manifold::Beta has not been overridden!\n");
         #endif
+		if (HasHHR && etax.FieldsExist("beta"))
+			return etax.Field("beta").ObtainReadData()[0];
 		return 1;
 	};
 
-- 
2.43.0


From ec00a7be3aad27a3e6a7b3dc12d16c2ed10bf62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 20/62] fix: a linear operator can be applied to complex
 tangent vectors

---
 Manifolds/Manifold.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 8b854a1..e998ba4 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -27,6 +27,8 @@ namespace ROPTLIB{
         bool etaxiscomplex = etax.Getiscomplex();
         etax.Setiscomplex(false);
         Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
+        result->Setiscomplex(false);
+        result->Reshape(result->Getlength());
         result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
         etax.Setiscomplex(etaxiscomplex);
         result->Setiscomplex(etaxiscomplex);
-- 
2.43.0


From 46769b95c9e1b54cc143c731a9d71d5799cbce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 21/62] fix: the locking condition transport is defined when
 the transported direction is reversed

---
 Manifolds/Manifold.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index e998ba4..ee53a06 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -719,7 +719,9 @@ namespace ROPTLIB{
         ScalarTimesVector(y, 2.0, eps1, &nu1);
         VectorLinearCombination(y, -1.0, eps1, -1.0, TRetaVector, &nu2);
         tau1tau2ptr[0] = static_cast<realdp> (2) / Metric(y, nu1, nu1);
-        tau1tau2ptr[1] = static_cast<realdp> (2) / Metric(y, nu2, nu2);
+        realdp nu2nu2 = Metric(y, nu2, nu2);
+        /*if the transported etax is opposite to betaTReta, then nu2 = 0 and the first reflection alone gives the locking condition*/
+        tau1tau2ptr[1] = (nu2nu2 <= std::numeric_limits<realdp>::epsilon() * Metric(x, etax, etax)) ? static_cast<realdp> (0) : static_cast<realdp> (2) / nu2nu2;
         
         etax.AddToFields("tau1tau2", tau1tau2);
         etax.AddToFields("nu1", nu1);
-- 
2.43.0


From 355d5b68fadb7cfc3b56e0d1d62eb9371c107067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 22/62] fix: the locking condition transport maps the zero
 vector to zero

---
 Manifolds/Manifold.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index ee53a06..edd0bc3 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -734,8 +734,11 @@ namespace ROPTLIB{
         {
             Obtainnu1nu2forLC(x, etax, y);
         }
+        realdp xixnormsq = Metric(x, xix, xix);
         HasHHR = false; VectorTransport(x, etax, y, xix, result); HasHHR = true;
-        ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(y, *result, *result)), *result, result);
+        realdp resultnormsq = Metric(y, *result, *result);
+        if (resultnormsq > 0)
+            ScalarTimesVector(y, sqrt(xixnormsq / resultnormsq), *result, result);
         
         Element tau1tau2 = etax.Field("tau1tau2");
         const realdp *tau1tau2ptr = tau1tau2.ObtainReadData();
-- 
2.43.0


From f53d76cab1df236c6e3be8098f9e35cba9157dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 23/62] fix: Stiefel/CStiefel EucHvToHv used wrong coefficients
 under the canonical metric

---
 Manifolds/CStiefel.cpp | 4 ++--
 Manifolds/Stiefel.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index be3044d..3712872 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -318,9 +318,9 @@ namespace ROPTLIB{
         tmp3 = (tmp - tmp.GetTranspose()) / 2;
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2*/
         tmp3.AlphaABaddBetaThis(1, EGrad, GLOBAL::C, x, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(-1, etax, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x)*/
+        result->AlphaABaddBetaThis(-0.5, etax, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x)*/
         tmp3.AlphaABaddBetaThis(0.5, etax, GLOBAL::C, x, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(-1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
+        result->AlphaABaddBetaThis(1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
         result->AlphaABaddBetaThis(-0.5, etax, GLOBAL::N, tmp2, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2*/
         tmp.AlphaABaddBetaThis(1, tmp3, GLOBAL::C, tmp2, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(1, x, GLOBAL::N, tmp, GLOBAL::N, 1); /* exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2 + 0.5 * x * (x.GetTranspose() * etax) * tmp2; */
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 6fbe5d5..7fe8f13 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -359,9 +359,9 @@ namespace ROPTLIB{
         tmp3 = (tmp - tmp.GetTranspose()) / 2;
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2*/
         tmp3.AlphaABaddBetaThis(1, EGrad, GLOBAL::T, x, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(-1, etax, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x)*/
+        result->AlphaABaddBetaThis(-0.5, etax, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x)*/
         tmp3.AlphaABaddBetaThis(0.5, etax, GLOBAL::T, x, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(-1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
+        result->AlphaABaddBetaThis(1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
         result->AlphaABaddBetaThis(-0.5, etax, GLOBAL::N, tmp2, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2*/
         tmp.AlphaABaddBetaThis(1, tmp3, GLOBAL::T, tmp2, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(1, x, GLOBAL::N, tmp, GLOBAL::N, 1); /* exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2 + 0.5 * x * (x.GetTranspose() * etax) * tmp2; */
-- 
2.43.0


From 557b6412912ca243b626d73704c2c2599c7413e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 24/62] fix: CStiefel EucHvToHv under the canonical metric used
 a real buffer for complex products (aborted)

---
 Manifolds/CStiefel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 3712872..ffdc14d 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -311,7 +311,7 @@ namespace ROPTLIB{
 
         /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2
         - 0.5 * ( etax * tmp2 - x * (x.GetTranspose() * etax) * tmp2 )*/
-        Vector tmp3(p, p);
+        Vector tmp3(p, p, "complex");
         *result = exix;
         tmp3.AlphaABaddBetaThis(1, exix, GLOBAL::C, x, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x)*/
-- 
2.43.0


From c6e6fb04c848822567d4c300a6145076a0c88ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 25/62] fix: a problem starts with analytic derivatives (its
 flags were uninitialised)

---
 Problems/Problem.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index e721254..d812b02 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -27,6 +27,9 @@ namespace ROPTLIB{
 
 	class Problem{
 	public:
+		/*The analytic gradient and Hessian are used unless SetNumGradHess is called.*/
+		Problem(void) : Domain(nullptr), UseGrad(true), UseHess(true), NumGradHess(false) {};
+
 		/*This function indicates this is an abstract class.*/
 		virtual ~Problem(void) = 0;
 
-- 
2.43.0


From cbd86efb70ffb1248c4f262d21d72c34be56a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 26/62] fix: a copy of a component of a product has its own
 memory (it dangled when the product was written or released)

---
 Manifolds/SmartSpace.cpp | 25 +++++++++++++++++++++----
 Manifolds/SmartSpace.h   |  1 +
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9d42f3d..3a9edeb 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -132,10 +132,16 @@ namespace ROPTLIB{
 				delete[] eta.Space; eta.Space = nullptr;
 			}
         
-		if (sharedtimes != nullptr)
-			(*sharedtimes)++;
-		eta.sharedtimes = sharedtimes;
-		eta.Space = Space;
+		/*The memory of a component belongs to the collection. It can not be shared, since the collection may be
+		written or released before its copies.*/
+		const bool IsShared = !IsComponent || sharedtimes == nullptr;
+		if (IsShared)
+		{
+			if (sharedtimes != nullptr)
+				(*sharedtimes)++;
+			eta.sharedtimes = sharedtimes;
+			eta.Space = Space;
+		}
         
 		if (eta.ls != ls)
 		{
@@ -148,6 +154,15 @@ namespace ROPTLIB{
 			eta.size[i] = size[i];
         
 		eta.length = length;
+
+		if (!IsShared)
+		{
+			eta.NewMemory();
+			eta.sharedtimes = new integer;
+			*(eta.sharedtimes) = 1;
+			integer N = length, inc = 1;
+			copy_(&N, Space, &inc, eta.Space, &inc);
+		}
 	};
 
 	void SmartSpace::NewMemory(void)
@@ -285,10 +300,12 @@ namespace ROPTLIB{
 		length = inlength;
 		sharedtimes = insharedtimes;
 		Space = inSpace;
+		IsComponent = true;
 	};
 
     void SmartSpace::SetByParams(integer *insharedtimes, realdp *inSpace)
     {
+        IsComponent = true;
         sharedtimes = insharedtimes;
         Space = inSpace;
     };
diff --git a/Manifolds/SmartSpace.h b/Manifolds/SmartSpace.h
index 173dae9..cb497be 100644
--- a/Manifolds/SmartSpace.h
+++ b/Manifolds/SmartSpace.h
@@ -108,6 +108,7 @@ namespace ROPTLIB{
 
 		integer *sharedtimes; /*The number of use of the data*/
 		realdp *Space; /*The pointer which points to the data*/
+		bool IsComponent = false; /*The data are a part of the memory of a collection of multiple elements, which owns it*/
 
 		/*allocate memory*/
 		void NewMemory(void);
-- 
2.43.0


From 9fd827836db0bda2f947db04e02c010f8c8059b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 27/62] fix: a product in extrinsic mode uses the extrinsic
 representation of its components in every operation

---
 Manifolds/MultiManifolds.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 39fdacf..87ee3ab 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -3,6 +3,21 @@
 /*Define the namespace*/
 namespace ROPTLIB{
 
+    /*The component works in the extrinsic representation during the lifetime of this object, if the product does.
+    Its own choice is restored afterwards.*/
+    class ComponentRepresentation{
+    public:
+        ComponentRepresentation(Manifold *inmani, bool IsIntrApproach) : mani(inmani), IsIntr(inmani->GetIsIntrinsic())
+        {
+            if(!IsIntrApproach)
+                mani->SetIsIntrApproach(false);
+        };
+        ~ComponentRepresentation(void) { mani->SetIsIntrApproach(IsIntr); };
+    private:
+        Manifold *mani;
+        bool IsIntr;
+    };
+
 	MultiManifolds::MultiManifolds(integer numberofmanifolds, ...)
 	{
 		numoftypes = numberofmanifolds;
@@ -131,6 +146,7 @@ namespace ROPTLIB{
         realdp result = 0;
         for(integer i = 0; i < numoftypes; i++)
         {
+            ComponentRepresentation rep(manifolds[i], IsIntrApproach);
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
@@ -167,6 +183,7 @@ namespace ROPTLIB{
         
         for(integer i = 0; i < numoftypes; i++)
         {
+            ComponentRepresentation rep(manifolds[i], IsIntrApproach);
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->Projection(x.GetElement(j), inetax.GetElement(j), &(result->GetElement(j)));
@@ -260,6 +277,7 @@ namespace ROPTLIB{
         
         for (integer i = 0; i < numoftypes; i++)
         {
+            ComponentRepresentation rep(manifolds[i], IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->coTangentVector(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxiy.GetElement(j), &(result->GetElement(j)));
@@ -283,6 +301,7 @@ namespace ROPTLIB{
 		realdp numerator = 0, denominator = 0, tmp;
 		for (integer i = 0; i < numoftypes; i++)
 		{
+			ComponentRepresentation rep(manifolds[i], IsIntrApproach);
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
 				if (x.GetElement(j).FieldsExist("beta"))
@@ -309,6 +328,7 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            ComponentRepresentation rep(manifolds[i], IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->DiffRetraction(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxix.GetElement(j), &(result->GetElement(j)), IsEtaXiSameDir);
@@ -358,6 +378,7 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            ComponentRepresentation rep(manifolds[i], IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->VectorTransport(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxix.GetElement(j), &(result->GetElement(j)));
@@ -376,6 +397,7 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            ComponentRepresentation rep(manifolds[i], IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->InverseVectorTransport(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxiy.GetElement(j), &(result->GetElement(j)));
@@ -394,6 +416,7 @@ namespace ROPTLIB{
 		integer start, end = 0;
 		for (integer i = 0; i < numoftypes; i++)
 		{
+			ComponentRepresentation rep(manifolds[i], IsIntrApproach);
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
 				start = end;
@@ -412,6 +435,7 @@ namespace ROPTLIB{
         xixflat.NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            ComponentRepresentation rep(manifolds[i], IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->ObtainEtaxFlat(x.GetElement(j), xix.GetElement(j), &(xixflat.GetElement(j)));
-- 
2.43.0


From 6cdacb24a858ff5bf0f45edf9bed619a652795a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 28/62] fix: CFRankQ2FBlindDecon2D read beyond the second
 factor in the penalty term

---
 Problems/CFRankQ2FBlindDecon2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Problems/CFRankQ2FBlindDecon2D.cpp b/Problems/CFRankQ2FBlindDecon2D.cpp
index 1024ff1..5c09e4e 100644
--- a/Problems/CFRankQ2FBlindDecon2D.cpp
+++ b/Problems/CFRankQ2FBlindDecon2D.cpp
@@ -57,7 +57,7 @@ namespace ROPTLIB {
                 rownorm2FBUptr[i] = dot_(&length, const_cast<realdp *> (FBUptr) + i * 2, &LL2, const_cast<realdp *> (FBUptr) + i * 2, &LL2);
                 rownorm2FBUptr[i] += dot_(&length, const_cast<realdp *> (FBUptr) + i * 2 + 1, &LL2, const_cast<realdp *> (FBUptr) + i * 2 + 1, &LL2);
             }
-            length = L * 2 * r;
+            length = V.Getlength();
             const realdp *Vptr = V.ObtainReadData();
             rownorm2FBUptr[L] = dot_(&length, const_cast<realdp *> (Vptr), &GLOBAL::IONE, const_cast<realdp *> (Vptr), &GLOBAL::IONE);
             
-- 
2.43.0


From 2079e0823cd1e0a085c9972368eee830b9a43ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 29/62] fix: the numerical Hessian action combined Euclidean
 gradients as tangent vectors (wrong for FixedRankE)

---
 Problems/Problem.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Problems/Problem.cpp b/Problems/Problem.cpp
index a097f15..3036068 100644
--- a/Problems/Problem.cpp
+++ b/Problems/Problem.cpp
@@ -139,6 +139,11 @@ namespace ROPTLIB{
 	Vector &Problem::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const
 	{ /*By finite difference*/
 		realdp normetax = sqrt(Domain->Metric(x, etax, etax));
+        if(normetax == 0)
+        {
+            *result = etax;
+            return *result;
+        }
 #ifdef SINGLE_PRECISION
         realdp factor = static_cast<realdp> (5e-2) / normetax;
 #else
@@ -155,7 +160,9 @@ namespace ROPTLIB{
         
         /*In the function EucGradToGrad, The Euclidean gradient has been added to x with field name: "EGrad" */
         Vector gfx = x.Field("EGrad");
-		Domain->VectorLinearCombination(x, static_cast<realdp> (1) / factor, gfy, static_cast<realdp> (-1) / factor, gfx, result);
+        *result = gfy; /*Euclidean gradients are combined entry by entry, not as tangent vectors of the domain*/
+        result->AlphaXaddThis(-1, gfx); /*gfy - gfx*/
+        result->ScalarTimesThis(static_cast<realdp> (1) / factor);
         return *result;
 	};
 
-- 
2.43.0


From 743f2eefeba7cba3219433a7c898f55863c6ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 30/62] fix: the periodic splines wrote one diagonal over the
 next one and over the right-hand side

---
 Others/Spline.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 885c9ec..49fd9ae 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -9,10 +9,10 @@ namespace ROPTLIB{
 		int i, nn;
 		realdp *d, *ud, *ld, *vec, *s;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
@@ -54,10 +54,10 @@ namespace ROPTLIB{
 		realdp *d, *ud, *ld, *vec, *s;
 		realdp hi;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
-- 
2.43.0


From c2629014e90620029a6aa99cdd889887cd248632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 31/62] fix: a spline whose first break is not zero was
 evaluated on the wrong piece

---
 Others/Spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 49fd9ae..2eb1cce 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -293,7 +293,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -352,7 +352,7 @@ namespace ROPTLIB{
 		nn = N - 1;
 		i = 0;
 
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -393,7 +393,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
-- 
2.43.0


From ca3ac7b4bf8836314ffc1df2fe9f3aba299885d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 32/62] fix: the real options of the proximal gradient solvers
 were truncated to integers when given by name

---
 Solvers/SolversNSMPGLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index cf6e767..edad6a0 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -115,17 +115,17 @@ namespace ROPTLIB{
             else
             if (iter->first == static_cast<std::string> ("LS_ratio"))
             {
-                LS_ratio = static_cast<integer> (iter->second);
+                LS_ratio = iter->second;
             }
             else
             if (iter->first == static_cast<std::string> ("LS_alpha"))
             {
-                LS_alpha = static_cast<integer> (iter->second);
+                LS_alpha = iter->second;
             }
             else
             if (iter->first == static_cast<std::string> ("Minstepsize"))
             {
-                Minstepsize = static_cast<integer> (iter->second);
+                Minstepsize = iter->second;
             }
         }
     };
-- 
2.43.0


From 9f94b14d6081f75c34d0cbc7b466d692b6a5168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 33/62] fix: the option RPGVariant (the name CheckParams prints
 and the examples use) was ignored

---
 Solvers/SolversNSMPGLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index edad6a0..9c98e69 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -108,7 +108,7 @@ namespace ROPTLIB{
         PARAMSMAP::iterator iter;
         for (iter = params.begin(); iter != params.end(); iter++)
         {
-            if (iter->first == static_cast<std::string> ("RPGLSVariant"))
+            if (iter->first == static_cast<std::string> ("RPGVariant") || iter->first == static_cast<std::string> ("RPGLSVariant"))
             {
                 Variant = static_cast<RPGLSVariant> (static_cast<integer> (iter->second));
             }
-- 
2.43.0


From 063accc5cfafe909e0e8353ccb9932e1f9a35848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 34/62] fix: data attached to a component of a product survived
 an assignment of the product

---
 Manifolds/Element.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 56dbcdc..3fcd08d 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2589,6 +2589,9 @@ namespace ROPTLIB{
 
     void Element::CopyTo(Element &eta) const
     {
+        if (this == &eta)
+            return;
+        
         SmartSpace::CopyTo(eta);
         eta.Setiscomplex(iscomplex);
         eta.ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
@@ -2596,6 +2599,8 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                /*the data attached to the component of eta belong to its previous entries*/
+                eta.GetElement(j).RemoveAllFromFields();
                 elements[j].CopyFieldsTo(eta.GetElement(j));
             }
         }
-- 
2.43.0


From 0f5e524a051ac958bdb74e7ab2d4c5f9b77b2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 35/62] fix: assigning an element to a reshaped copy of itself
 kept the shape of the copy

---
 Manifolds/SmartSpace.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 3a9edeb..ae38dc0 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -85,8 +85,16 @@ namespace ROPTLIB{
 
 	void SmartSpace::CopyTo(SmartSpace &eta) const
 	{
-		if (this == &eta || (eta.Space == Space && !(eta.Space == nullptr && Space == nullptr)))
+		if (this == &eta)
 			return;
+		if (eta.Space == Space && Space != nullptr)
+		{
+			/*the data are shared already, the shapes may still differ*/
+			if (!IsComponent && !eta.IsComponent && eta.ls == ls)
+				for (integer i = 0; i < ls; i++)
+					eta.size[i] = size[i];
+			return;
+		}
         
 		bool IsSameSize = true;
         
-- 
2.43.0


From bb38aa12ff2f71b4abc5b03857e34263efb89bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 36/62] fix: assigning a product kept the shapes of the
 components of the target when only the lengths agreed

---
 Manifolds/Element.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 3fcd08d..020b5a4 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2936,11 +2936,22 @@ namespace ROPTLIB{
         {
             for(integer i = 0; i < innumofelements; i++)
             {
-                if(inelements[i].Getlength() != elements[i].Getlength())
+                if(inelements[i].Getlength() != elements[i].Getlength() || inelements[i].Getiscomplex() != elements[i].Getiscomplex()
+                   || inelements[i].Getnumoftypes() != elements[i].Getnumoftypes() || inelements[i].Getls() != elements[i].Getls())
                 {
                     issamesize = false;
                     break;
                 }
+                for(integer j = 0; j < inelements[i].Getls(); j++)
+                {
+                    if(inelements[i].Getsize()[j] != elements[i].Getsize()[j])
+                        issamesize = false;
+                }
+            }
+            for(integer i = 0; i <= innumoftypes; i++)
+            {
+                if(inpowsinterval[i] != powsinterval[i])
+                    issamesize = false;
             }
         }
         
-- 
2.43.0


From 882a52be3ab2d6576e8fd7af709f3de73d3b5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 37/62] fix: a factorization computed before Reshape was
 returned for the reshaped matrix

---
 Manifolds/Element.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 020b5a4..5eb9a76 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1811,6 +1811,10 @@ namespace ROPTLIB{
 
     Element &Element::Reshape(integer r, integer c, integer n)
     {
+        /*the attached data, such as factorizations, belong to the previous shape*/
+        if(Getrow() != r || size[1] != c || size[2] != n)
+            RemoveAllFromFields();
+        
         if(!iscomplex)
         {
             assert(r * c * n == length);
-- 
2.43.0


From 99acd9d1b48f5754e90e2e0c17e2ad15fce836d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 38/62] fix: ScaledIdOPE did not set a complex matrix to the
 scaled identity

---
 Manifolds/Element.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 5eb9a76..7b4ae39 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2865,11 +2865,18 @@ namespace ROPTLIB{
 
     void Element::ScaledIdOPE(realdp scalar)
     {
-        if(ls < 2 || size[0] != size[1])
+        if(ls < 2 || Getrow() != size[1])
         {
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
+        if(iscomplex)
+        {
+            SetToZeros();
+            for (integer i = 0; i < size[1]; i++)
+                Space[2 * i + i * size[0]] = scalar;
+            return;
+        }
         NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
-- 
2.43.0


From 9a44444857bc89ad1f8ae1c83b37001379052203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 39/62] fix: += and -= of elements did not change their left
 operand

---
 Manifolds/Element.cpp | 4 ++--
 Manifolds/Element.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 7b4ae39..341c18e 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -214,7 +214,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator+=(Element left, Element right)
+    Element &operator+=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
@@ -290,7 +290,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator-=(Element left, Element right)
+    Element &operator-=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index b541cc1..1d99634 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -65,7 +65,7 @@ namespace ROPTLIB{
         friend Element operator+(realdpcomplex left, Element right);
         
         /*left = left + right*/
-        friend Element operator+=(Element left, Element right);
+        friend Element &operator+=(Element &left, Element right);
         
         /*substract an element from another. They have to be both real or complex*/
         friend Element operator-(Element left, Element right);
@@ -83,7 +83,7 @@ namespace ROPTLIB{
         friend Element operator-(realdpcomplex left, Element right);
         
         /*left = left - right*/
-        friend Element operator-=(Element left, Element right);
+        friend Element &operator-=(Element &left, Element right);
         
         /*a element times another, they have to be both real or complex
          This is matrix multiplication*/
-- 
2.43.0


From 0361e2ce3e934cd23e33d12ca68f46a4c437ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 40/62] fix: the Wolfe line search reported success after ten
 doublings although the curvature condition failed

---
 Solvers/SolversSMLS.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e73b786..7d8b2e1 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -701,7 +701,6 @@ namespace ROPTLIB{
 				newslope = dh();
 				if (newslope < LS_beta * initialslope)
 				{
-					times = 0;
 					while (f2 <= f1 + LS_alpha * stepsize * initialslope && newslope < LS_beta * initialslope && stepsize < Maxstepsize)
 					{
 						prestepsize = stepsize;
@@ -710,9 +709,6 @@ namespace ROPTLIB{
 						f2 = h();
 						if (f2 <= f1 + LS_alpha * stepsize * initialslope)
 							newslope = dh();
-						times++;
-						if (times > 10)
-							break;
 					}
 					if (stepsize >= Maxstepsize)
 					{
-- 
2.43.0


From 6270c9863b64f586ef31638fb034b8663995afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 41/62] fix: the Wolfe line search reported success without
 decrease when its doubling returned to the initial step size

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 7d8b2e1..f535515 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -716,7 +716,7 @@ namespace ROPTLIB{
 						LSstatus = LSSM_MAXSTEPSIZE;
 						return;
 					}
-					if (stepsize != initiallength && f2 > f1 + LS_alpha * stepsize * initialslope)
+					if (f2 > f1 + LS_alpha * stepsize * initialslope)
 					{
 						stepsizelo = (stepsize < prestepsize) ? stepsize : prestepsize;
 						stepsizediff = fabs(prestepsize - stepsize);
-- 
2.43.0


From 2269f4f62798795fb765ca14c51a372a114ed640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 42/62] fix: the strong Wolfe line search left the gradient of
 another point when it failed

---
 Solvers/SolversSMLS.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index f535515..0352da0 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -522,17 +522,18 @@ namespace ROPTLIB{
 		integer times = 0;
 		while (1)
 		{
-			xdiff = (xhi - xlo);
-			xincr = -xloslope * xdiff * xdiff / 2 / (fxhi - (fxlo + xloslope * xdiff));
-            xincr = (xincr < xdiff * LS_ratio1) ? xdiff * LS_ratio1 : xincr;
-            xincr = (xincr < xdiff * LS_ratio2) ? xincr : xdiff * LS_ratio2;
-			stepsize = xlo + xincr;
 			times++;
 			if (times >= 10)
 			{
+				Prob->Grad(this->x2, &gf2); ng++;
 				LSstatus = LSSM_LSERROR;
 				return;
 			}
+			xdiff = (xhi - xlo);
+			xincr = -xloslope * xdiff * xdiff / 2 / (fxhi - (fxlo + xloslope * xdiff));
+            xincr = (xincr < xdiff * LS_ratio1) ? xdiff * LS_ratio1 : xincr;
+            xincr = (xincr < xdiff * LS_ratio2) ? xincr : xdiff * LS_ratio2;
+			stepsize = xlo + xincr;
 			f2 = h();
 			if (f2 > f1 + LS_alpha * stepsize * initialslope || f2 >= fxlo)
 			{
@@ -557,6 +558,7 @@ namespace ROPTLIB{
 			}
 			if (stepsize <= Minstepsize)
 			{
+				Prob->Grad(this->x2, &gf2); ng++;
 				LSstatus = LSSM_MINSTEPSIZE;
 				return;
 			}
-- 
2.43.0


From 74bb77fa8047ac62dbb9cf73489e589d9ddd510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 43/62] fix: trust-region runs recorded the function value of a
 rejected candidate

---
 Solvers/SolversSMTR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 47f9f72..9003d49 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -108,8 +108,8 @@ namespace ROPTLIB{
 			if (Verbose >= ITERRESULT)
 			{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2;
-                gradSeriesptr[iter] = ngf2;
+				funSeriesptr[iter] = f1; /*f1 and ngf1 are those of the current iterate no matter whether x2 is accepted or not*/
+                gradSeriesptr[iter] = ngf1;
 			}
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-- 
2.43.0


From 06042c47dcd92d6ea6bfb3757bf433033d9ff1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 44/62] fix: RTRSR1 updated the rescaled Hessian approximation
 with the residual of the previous one

---
 Solvers/RTRSR1.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index d6b017f..8a39a80 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -81,11 +81,14 @@ namespace ROPTLIB{
         Mani->InverseVectorTransport(x1, eta2, x2, gf2, &y);  nV++;
         Mani->ScalarVectorAddVector(x1, -1, gf1, y, &y);
         s = eta2;
-        Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
-        denorminator = Mani->Metric(x1, s, zeta);
         
         if (iter == 1)
+        {
             B.ScaledIdOPE(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y));
+            HvRTRSR1(s, B, &Heta2);
+        }
+        Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
+        denorminator = Mani->Metric(x1, s, zeta);
         
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
-- 
2.43.0


From 478364e1a27ca306365b4413cb6928c43f5b657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 45/62] fix: the preconditioned conjugate gradient direction
 used the gradient without preconditioner

---
 Solvers/RCG.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index 70d174d..dbf2d74 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -141,9 +141,9 @@ namespace ROPTLIB{
         }
         Pgf1 = Pgf2;
         if(sigma == 0)
-            Mani->ScalarTimesVector(x2, -1, gf2, &eta1);
+            Mani->ScalarTimesVector(x2, -1, Pgf2, &eta1);
         else
-            Mani->VectorLinearCombination(x2, -1, gf2, sigma, Teta1, &eta1);
+            Mani->VectorLinearCombination(x2, -1, Pgf2, sigma, Teta1, &eta1);
 	};
 
 	void RCG::SetParams(PARAMSMAP params)
-- 
2.43.0


From ed5b42ae4b518126bf50cceb7ffdaa63c469531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 46/62] fix: AManPG did not count the evaluations of its
 accelerated step

---
 Solvers/AManPG.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 93045c1..695fadb 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -203,16 +203,16 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            Mani->Retraction(y1, eta1, &z2);
-            fz2 = Prob->f(z2);
+            Mani->Retraction(y1, eta1, &z2); nR++;
+            fz2 = Prob->f(z2); nf++;
             s2 = (1.0 + std::sqrt(1.0 + 4.0 * s1 * s1)) / 2.0;
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
             
-            Mani->Retraction(z2, zeta, &y2);
+            Mani->Retraction(z2, zeta, &y2); nR++;
             
-            fy2 = Prob->f(y2);
-            Prob->Grad(y2, &gfy2);
+            fy2 = Prob->f(y2); nf++;
+            Prob->Grad(y2, &gfy2); ng++;
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
-- 
2.43.0


From b48a4ac6ca51d264cf7b51f800c80537e15b8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 47/62] fix: the subgradient solvers tested the length of an
 earlier direction when the minimum norm vector is small

---
 Solvers/SolversNSMSubLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 808097d..72fe266 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -251,6 +251,7 @@ namespace ROPTLIB{
 			}
 			if (nminPv <= Del)
 			{
+				ndir1 = nminPv;
 				return;
 			}
             /*end the stopping criterion*/
-- 
2.43.0


From 090199bf53108a444fd858e08222485cc8923fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 48/62] fix: the line search of the subgradient solvers
 reported the maximum step size for the iterate of a smaller one

---
 Solvers/SolversNSMSubLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 72fe266..00e1fc9 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -334,11 +334,11 @@ namespace ROPTLIB{
                 break;
             } else
             {
+                if (stepsize >= Maxstepsize)
+                    break;
+
                 prestepsize = stepsize;
                 stepsize = (2 * stepsize < Maxstepsize) ? 2 * stepsize : Maxstepsize;
-
-                if (stepsize == Maxstepsize)
-                    break;
             }
         }
         if (stepsize <= Minstepsize)
-- 
2.43.0


From cb7e7dbbf8975e9556ab3c976180fda16a90df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 49/62] fix: the start time of a subgradient solver was
 overwritten by the solver of its quadratic subproblem

---
 Problems/Problem.h  | 1 -
 Solvers/Solvers.cpp | 1 -
 Solvers/Solvers.h   | 2 +-
 3 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index d812b02..7a47177 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -23,7 +23,6 @@ namespace ROPTLIB{
     class Problem;
 
     extern Vector MinMaxEigValHessian(Variable *X, Manifold *Domain, const Problem *Prob);
-    extern unsigned long starttime;    /*the start time of running the algorithm*/
 
 	class Problem{
 	public:
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 0c8d7e3..3a178a3 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -4,7 +4,6 @@
 /*Define the namespace*/
 namespace ROPTLIB{
 
-    unsigned long starttime = 0;
 	void Solvers::CheckParams(void)
 	{
 		std::string VERBOSEnames[VERBOSELENGTH] = { "NOOUTPUT", "FINALRESULT", "ITERRESULT", "DETAILED" };
diff --git a/Solvers/Solvers.h b/Solvers/Solvers.h
index 10a6997..5e0caca 100644
--- a/Solvers/Solvers.h
+++ b/Solvers/Solvers.h
@@ -29,7 +29,6 @@ namespace ROPTLIB{
 	The details of output information can be found in Appendix B of the User Manual.
 	*/
 	enum VERBOSEINFO{ NOOUTPUT, FINALRESULT, ITERRESULT, DETAILED, VERBOSELENGTH };
-    extern unsigned long starttime;    /*the start time of running the algorithm*/
 
 	class Solvers{
 	public:
@@ -158,6 +157,7 @@ namespace ROPTLIB{
 		/* For debug information */
 		integer iter; /*number of iterations*/
 		realdp ComTime;	/*the computational time*/
+		unsigned long starttime;	/*the start time of running the algorithm*/
 		integer nf, ng, nR, nV, nVp, nH; /*number of function evaluations
 										 number of gradient evaluations
 										 number of retraction evaluations
-- 
2.43.0


From 7223afc4d72d8d6ae23863fcac4ea7d2692d22de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 50/62] fix: LRTRSR1 aborted when the number of stored pairs
 exceeds the length of a tangent vector

---
 Solvers/LRTRSR1.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index ef2c5f6..6686243 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -73,10 +73,13 @@ namespace ROPTLIB{
 	void LRTRSR1::Run(void)
 	{
 		DeleteVectors(S, LengthSY);
-		NewVectors(S, LengthSY);
 		DeleteVectors(Y, LengthSY);
-		NewVectors(Y, LengthSY);
 		DeleteVectors(YMGS, LengthSY);
+		/*The thin QR decomposition in tCG_TR needs the number of stored pairs to be at most the length of a tangent vector.*/
+		if (LengthSY > gf1.Getlength())
+			LengthSY = gf1.Getlength();
+		NewVectors(S, LengthSY);
+		NewVectors(Y, LengthSY);
 		NewVectors(YMGS, LengthSY);
         
 		if (SS != nullptr)
-- 
2.43.0


From f5b3907b74603ee6fb86ed2e2bcf545948ca882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 51/62] fix: the LRTRSR1 step left the trust region or was
 wrong in the hard case, for negative components and after rounding

---
 Solvers/LRTRSR1.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 6686243..fde5fea 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -149,7 +149,7 @@ namespace ROPTLIB{
         const realdp *Dptr = D.ObtainReadData();
         for (integer i = 0; i < k; i++)
             Lambdaptr[i] = Dptr[i] + gamma;
-        Lambdaptr[k] = gamma;
+        Lambdaptr[k] = (k < n) ? gamma : Lambdaptr[k - 1]; /*there is no direction orthogonal to P_parallel if k == n*/
         
         for (integer i = 0; i < k + 1; i++)
             if (fabs(Lambdaptr[i]) <= tolLocalNewton)
@@ -159,10 +159,10 @@ namespace ROPTLIB{
         for(integer i = 0; i < k + 1; i++)
             if(lambda_min > Lambdaptr[i])
                 lambda_min = Lambdaptr[i];
-        realdp a_kp2 = std::sqrt(Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel)));
+        realdp gf1sq = Mani->Metric(x1, gf1, gf1);
+        realdp a_kp2 = gf1sq - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel));
         
-        if (a_kp2 * a_kp2 < tolLocalNewton)
-            a_kp2 = 0;
+        a_kp2 = (a_kp2 < tolLocalNewton * gf1sq) ? 0 : std::sqrt(a_kp2); /*the difference may be negative due to the rounding error*/
         
         Vector a_j(k + 1);
         realdp *a_jptr = a_j.ObtainWriteEntireData();
@@ -214,20 +214,24 @@ namespace ROPTLIB{
 
                 if (lambda_min < 0)
                 {
-                    realdp alpha = sqrt(Delta * Delta - dot_(&n, pStar, &GLOBAL::IONE, pStar, &GLOBAL::IONE));
+                    realdp alpha = sqrt(Delta * Delta - eta2.DotProduct(eta2));
 
                     Vector zstar(n);
-                    if (fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
-                    {
-                        zstar = (alpha / std::sqrt(P_parallel.DotProduct(P_parallel))) * P_parallel;
+                    if (k > 0 && fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
+                    {/*the first column of P_parallel is a unit eigenvector for the smallest eigenvalue*/
+                        zstar = alpha * P_parallel.GetSubmatrix(0, n - 1, 0, 0);
                     }
                     else
-                    {
+                    {/*a vector orthogonal to P_parallel; one of the first k + 1 unit vectors is not in the range of P_parallel*/
                         realdp norm_umin = 1;
-                        for (integer i = 0; i < k; i++)
+                        for (integer i = 0; i < k + 1; i++)
                         {
-                            Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
-                            zstar.AlphaABaddBetaThis(1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 0); /*zstar = P_parallel * P_parallel.GetSubmatrix(i, i, 0, k - 1).GetTranspose();*/
+                            zstar.SetToZeros();
+                            if (k > 0)
+                            {
+                                Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
+                                zstar.AlphaABaddBetaThis(-1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 0); /*zstar = - P_parallel * P_parallel.GetSubmatrix(i, i, 0, k - 1).GetTranspose();*/
+                            }
                             realdp *zstarptr = zstar.ObtainWritePartialData();
                             zstarptr[i] += 1;
                             norm_umin = std::sqrt(zstar.DotProduct(zstar));
@@ -251,8 +255,8 @@ namespace ROPTLIB{
                     realdp sigmaHat = 0;
                     for (integer i = 0; i < k + 1; i++)
                     {
-                        if (sigmaHat < a_jptr[i] / Delta - Lambdaptr[i])
-                            sigmaHat = a_jptr[i] / Delta - Lambdaptr[i];
+                        if (sigmaHat < fabs(a_jptr[i]) / Delta - Lambdaptr[i])
+                            sigmaHat = fabs(a_jptr[i]) / Delta - Lambdaptr[i];
                     }
                     if (sigmaHat > -lambda_min)
                         sigmaStar = LocalNewton(sigmaHat, 10, tolLocalNewton, Lambda, a_j);
@@ -266,6 +270,10 @@ namespace ROPTLIB{
                 tCGstatusSM = TRSM_EXCREGION;
             }
         Mani->Projection(x1, eta2, &eta2);
+        /*the step may leave the trust region due to the rounding error*/
+        realdp neta2 = std::sqrt(Mani->Metric(x1, eta2, eta2));
+        if (neta2 > Delta)
+            Mani->ScalarTimesVector(x1, Delta / neta2, eta2, &eta2);
         /*recover the types of data*/
         gf1.Setiscomplex(gf1iscomplex);
         eta2.Setiscomplex(gf1iscomplex);
-- 
2.43.0


From 0c621ce71ce7cd72e091ea27bd232e7987757d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 52/62] fix: the truncated conjugate gradient step was NaN when
 the model is solved exactly before Min_Inner_Iter

---
 Solvers/SolversSMTR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 9003d49..a4f3c6e 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -220,7 +220,7 @@ namespace ROPTLIB{
 
 			tempnum = pow(norm_r0, theta);
 
-			if (j >= Min_Inner_Iter && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
+			if ((j >= Min_Inner_Iter || norm_r == 0) && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa)) /*a zero residual gives no further direction*/
 			{
 				if (kappa < tempnum)
 					tCGstatusSM = TRSM_LCON; /* linear convergence*/
-- 
2.43.0


From 435e9c4a55cf5251fe2662de0dae2e30b26fcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 53/62] fix: RNewton replaced a step that converged in one
 inner iteration by the steepest descent direction

---
 Solvers/RNewton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 31b7b63..4d66053 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -165,7 +165,7 @@ namespace ROPTLIB{
             Mani->ScalarVectorAddVector(x2, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
 		}
 		innerIter = j;
-		if (j == 0)
+		if (j == 0 && tCGLSSMstatus != LSSM_LCON && tCGLSSMstatus != LSSM_SCON)
             eta1 = delta;
 	};
 
-- 
2.43.0


From d91b5647445e6af4ca742fc72c95bd7cf24ca812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 54/62] fix: a second Run of a limited-memory solver used the
 deleted pairs of the first one

---
 Solvers/LRBFGS.cpp    | 2 ++
 Solvers/LRBFGSSub.cpp | 2 ++
 Solvers/LRTRSR1.cpp   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 1782b5c..1c1838e 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,8 @@ namespace ROPTLIB{
 		if (RHO != nullptr)
 			delete[] RHO;
 		RHO = new realdp[LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
 		SolversSMLS::Run();
 	};
 
diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 8c70bac..768ed89 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -13,6 +13,8 @@ namespace ROPTLIB{
         if (RHO != nullptr)
             delete[] RHO;
         RHO = new realdp[LengthSY];
+        Currentlength = 0;
+        beginidx = 0;
         SolversNSMSubLS::Run();
 	};
 
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index fde5fea..550dde2 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -88,6 +88,8 @@ namespace ROPTLIB{
 		if (SY != nullptr)
 			delete[] SY;
 		SY = new realdp[LengthSY * LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
 		SolversSMTR::Run();
 	};
 
-- 
2.43.0


From cb1181df3f8217423b615888617b9880c1d2cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 55/62] fix: extrinsic inverse vector transport of
 FixedRankQ2F/CFixedRankQ2F took the coordinates at the wrong point

---
 Manifolds/CFixedRankQ2F.cpp | 2 +-
 Manifolds/FixedRankQ2F.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 9842671..7835764 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -381,7 +381,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index ce753c3..b56062d 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -354,7 +354,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
-- 
2.43.0


From 91f2b4b4a7c45124bcdc10991db92909b42bfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:32 +0000
Subject: [PATCH 56/62] fix: vector transport by projection of
 SymFixedRankQ/CSymFixedRankQ skipped the projection in intrinsic mode

---
 Manifolds/CSymFixedRankQ.cpp | 1 +
 Manifolds/SymFixedRankQ.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index bc94632..ae6bcdf 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -742,6 +742,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 80a0c05..89fe23b 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -938,6 +938,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
-- 
2.43.0


From 99f7aedc778f18c526b4579a82593bcd870c8410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:39 +0000
Subject: [PATCH 57/62] fix: extrinsic differentiated retraction of Grassmann
 was not horizontal

---
 Manifolds/Grassmann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Grassmann.cpp b/Manifolds/Grassmann.cpp
index b10c0c9..aebc450 100644
--- a/Manifolds/Grassmann.cpp
+++ b/Manifolds/Grassmann.cpp
@@ -112,7 +112,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
             ObtainIntr(y, exresult, result);
         else
-            *result = exresult;
+            ExtrProjection(y, exresult, result);
         
         if (IsEtaXiSameDir && HasHHR)
         {
-- 
2.43.0


From dacb688c750a138654009577959929a8ba1cee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:59 +0000
Subject: [PATCH 58/62] fix: SPDManifold had no inverse of the extrinsic vector
 transport by parallelization

---
 Manifolds/SPDManifold.cpp | 8 ++++++++
 Manifolds/SPDManifold.h   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 5ff7929..f5051e6 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -487,6 +487,14 @@ namespace ROPTLIB{
         return VectorTransportParallelization(x, etax, y, xix, result);
     };
 
+    Vector &SPDManifold::InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
+    {
+        if (HasHHR || IsIntrApproach || VecTran != SPDVTPARA)
+            return Manifold::InverseVectorTransport(x, etax, y, xiy, result);
+        
+        return VectorTransportParallelization(y, etax, x, xiy, result);
+    };
+
     Vector &SPDManifold::ParallelTranslation(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
         if (!x.FieldsExist("_L"))
diff --git a/Manifolds/SPDManifold.h b/Manifolds/SPDManifold.h
index 9de6fcb..bac3b65 100644
--- a/Manifolds/SPDManifold.h
+++ b/Manifolds/SPDManifold.h
@@ -89,6 +89,9 @@ namespace ROPTLIB{
 
         /*Computes the vector transport, i.e., result = \mathcal{T}_etax (xix)*/
         virtual Vector &VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const;
+
+        /*Inverse of the vector transport by parallelization: the coordinates are taken at y and turned back at x*/
+        virtual Vector &InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const;
         
 	protected:
 		integer n; /*The size of the space, i.e., the number of row/column */
-- 
2.43.0


From 254a3ce8fc4338a2ac68ed035e0c2f333f3a67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:53 +0000
Subject: [PATCH 59/62] fix: CStiefel::ObtainNorVerExtr sets the imaginary part
 of the diagonal it leaves uninitialised

---
 Manifolds/CStiefel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index ffdc14d..85da7ed 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -389,6 +389,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < p; i++)
         {
             xTetaxptr[i + i * p].r = intretaxptr[idx];
+            xTetaxptr[i + i * p].i = 0;
             idx++;
         }
         for(integer i = 0; i < p; i++)
-- 
2.43.0


From 03fa9925ad98b6bf4882c8278f02d637ab23e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:04 +0000
Subject: [PATCH 60/62] fix: FixedRankE::ObtainNorVerIntr computes the
 reflectors of U and V when they are missing

---
 Manifolds/FixedRankE.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 32f65a0..64759fe 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -117,6 +117,16 @@ namespace ROPTLIB{
     Vector &FixedRankE::ObtainNorVerIntr(const Variable &x, const Vector &etax, Vector *result) const
     {
         Vector U = x.Field("U"), D = x.Field("D"), V = x.Field("V");
+        if(!(U.FieldsExist("_HHR")))
+        {
+            U.HHRDecom();
+            x.AddToFields("U", U);
+        }
+        if(!(V.FieldsExist("_HHR")))
+        {
+            V.HHRDecom();
+            x.AddToFields("V", V);
+        }
         Vector QUTetax = etax.HHRMtp(U.Field("_HHR"), U.Field("_tau"), GLOBAL::T, GLOBAL::L);
         Vector QUTetaxQV = QUTetax.HHRMtp(V.Field("_HHR"), V.Field("_tau"), GLOBAL::N, GLOBAL::R);
         const realdp *QUTetaxQVptr = QUTetaxQV.ObtainReadData();
-- 
2.43.0


From 239ba0d2ffea5d7cab2f6ce8e314f11bcc7e44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:17 +0000
Subject: [PATCH 61/62] fix: Stiefel's Cayley retraction and transports use the
 extrinsic vectors they compute

---
 Manifolds/Stiefel.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 7fe8f13..76b2632 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -723,7 +723,7 @@ namespace ROPTLIB{
 	};
 
 	Variable &Stiefel::CayleyRetraction(const Variable &x, const Vector &etax, Variable *result) const
-	{/* assume extrinsic representation is used for etax */
+	{
         Vector exetax(EMPTYEXTR);
         if(IsIntrApproach)
             ObtainExtr(x, etax, &exetax);
@@ -735,10 +735,10 @@ namespace ROPTLIB{
         realdp *Mk3ptr = Mk3.ObtainWriteEntireData();
         realdp *LUPptr = LUP.ObtainWriteEntireData();
         realdp *Uptr = U.ObtainWriteEntireData();
-        Vector Mk211(p, p); Mk211.AlphaABaddBetaThis(0.5, x, GLOBAL::T, etax, GLOBAL::N, 0); /* Mk211 = 0.5 * x.GetTranspose() * etax; */
+        Vector Mk211(p, p); Mk211.AlphaABaddBetaThis(0.5, x, GLOBAL::T, exetax, GLOBAL::N, 0); /* Mk211 = 0.5 * x.GetTranspose() * exetax; */
         
 		const realdp *xptr = x.ObtainReadData();
-		const realdp *etaxptr = etax.ObtainReadData();
+		const realdp *etaxptr = exetax.ObtainReadData();
 
 		integer P = p, N = n, P2 = p * 2;
 		realdp half = 0.5;
@@ -852,7 +852,7 @@ namespace ROPTLIB{
 
 			delete[] Mk2Mk3;
             if(IsIntrApproach)
-                ObtainIntr(x, exresult, result);
+                ObtainIntr(y, exresult, result);
             else
                 *result = exresult;
             
@@ -897,7 +897,7 @@ namespace ROPTLIB{
 		copy_(&length, const_cast<realdp *> (Uptr + n * p), &GLOBAL::IONE, V, &GLOBAL::IONE);
 		copy_(&length, const_cast<realdp *> (Uptr), &GLOBAL::IONE, V + n * p, &GLOBAL::IONE);
 		scal_(&length, &GLOBAL::DNONE, V + n * p, &GLOBAL::IONE);
-		const realdp *xixptr = xix.ObtainReadData();
+		const realdp *xixptr = exxix.ObtainReadData();
 		integer N = n, P = p, P2 = p * 2;
 		gemm_(GLOBAL::T, GLOBAL::N, &P2, &P, &N, &GLOBAL::DONE, V, &N, const_cast<realdp *> (xixptr), &N, &GLOBAL::DZERO, Vtxix, &P2);
 
@@ -910,7 +910,7 @@ namespace ROPTLIB{
 			printf("Warning: getrs in Stiefel::DiffCayleyRetraction failed!\n");
 		delete[] Perm;
 
-        Vector exresult(xix);
+        Vector exresult(exxix);
 		realdp *exresultptr = exresult.ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, const_cast<realdp *> (Uptr), &N, Vtxix, &P2, &GLOBAL::DONE, exresultptr, &N);
 		delete[] V;
@@ -938,7 +938,7 @@ namespace ROPTLIB{
 		copy_(&length, const_cast<realdp *> (Uptr + n * p), &GLOBAL::IONE, V, &GLOBAL::IONE);
 		copy_(&length, const_cast<realdp *> (Uptr), &GLOBAL::IONE, V + n * p, &GLOBAL::IONE);
 		scal_(&length, &GLOBAL::DNONE, V + n * p, &GLOBAL::IONE);
-		const realdp *xiyptr = xiy.ObtainReadData();
+		const realdp *xiyptr = exxiy.ObtainReadData();
 		integer N = n, P = p, P2 = p * 2;
 		gemm_(GLOBAL::T, GLOBAL::N, &P2, &P, &N, &GLOBAL::DONE, const_cast<realdp *> (Uptr), &N, const_cast<realdp *> (xiyptr), &N, &GLOBAL::DZERO, Utxiy, &P2);
 
@@ -951,7 +951,7 @@ namespace ROPTLIB{
 			printf("Warning: getrs in Stiefel::DiffCayleyRetraction failed!\n");
 		delete[] Perm;
 
-        Vector exresult(xiy);
+        Vector exresult(exxiy);
 		realdp *exresultptr = exresult.ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, V, &N, Utxiy, &P2, &GLOBAL::DONE, exresultptr, &N);
 		delete[] V;
-- 
2.43.0


From 73fd98575761f8b9a55a5d00c50b55dfac8d18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:52 +0000
Subject: [PATCH 62/62] fix: ManPG and AManPG measured the search direction at
 x1 with the metric at x2

---
 Solvers/AManPG.cpp | 2 +-
 Solvers/ManPG.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 695fadb..4ce6d9d 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -136,7 +136,7 @@ namespace ROPTLIB{
                 Mani->TangentSpaceProximalMap(x1, gf1, adavalue, SMtol, SMlambda, Prob, &initD, &SMiter, &SMCGiter, &eta1);
                 totalSMiter += SMiter;
                 totalSMCGiter += SMCGiter;
-                ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+                ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
                 if(ndir0 == 0)
                 { /*initialize ndir0*/
                     ndir0 = ndir1;
diff --git a/Solvers/ManPG.cpp b/Solvers/ManPG.cpp
index 8f959af..f5a1c09 100644
--- a/Solvers/ManPG.cpp
+++ b/Solvers/ManPG.cpp
@@ -61,7 +61,7 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+            ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
             if(ndir0 == 0)
             { /*initialize ndir0*/
                 ndir0 = ndir1;
-- 
2.43.0

