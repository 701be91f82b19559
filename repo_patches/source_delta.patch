From 1c1dce3192c527cd9ddf675d1f77bbdfa769d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 01/63] fix: SolversNSMPGLS::SetParams stored real-valued
 parameters through an integer cast

LS_ratio, LS_alpha and Minstepsize are real; the default-like values in (0, 1)
were truncated to 0 when set by name.
---
 Solvers/SolversNSMPGLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index cf6e767..e8fddf0 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -115,17 +115,17 @@ namespace ROPTLIB{
             else
             if (iter->first == static_cast<std::string> ("LS_ratio"))
             {
-                LS_ratio = static_cast<integer> (iter->second);
+                LS_ratio = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("LS_alpha"))
             {
-                LS_alpha = static_cast<integer> (iter->second);
+                LS_alpha = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("Minstepsize"))
             {
-                Minstepsize = static_cast<integer> (iter->second);
+                Minstepsize = static_cast<realdp> (iter->second);
             }
         }
     };
-- 
2.43.0


From 87a57775107f4bc31f0e3fee229fea27ffee7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 02/63] fix: MultiManifolds::Beta did not override
 Manifold::Beta

Its parameter lacked const, so a call through Manifold always returned 1, and
the per-component values were looked up in x instead of etax, where
DiffRetraction stores them.
---
 Manifolds/MultiManifolds.cpp | 6 +++---
 Manifolds/MultiManifolds.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 4a53cd0..15fbfbc 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -266,7 +266,7 @@ namespace ROPTLIB{
         return *result;
 	};
 
-	realdp MultiManifolds::Beta(const Variable &x, Vector &etax) const
+	realdp MultiManifolds::Beta(const Variable &x, const Vector &etax) const
 	{
 		if (!HasHHR)
 			return 1;
@@ -283,9 +283,9 @@ namespace ROPTLIB{
 		{
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
-				if (x.GetElement(j).FieldsExist("beta"))
+				if (etax.GetElement(j).FieldsExist("beta"))
 				{
-					betav = x.GetElement(j).Field("beta").ObtainReadData();
+					betav = etax.GetElement(j).Field("beta").ObtainReadData();
 					numerator += betav[1];
 					denominator += betav[2];
 				}
diff --git a/Manifolds/MultiManifolds.h b/Manifolds/MultiManifolds.h
index b10c763..0b0490e 100644
--- a/Manifolds/MultiManifolds.h
+++ b/Manifolds/MultiManifolds.h
@@ -121,7 +121,7 @@ namespace ROPTLIB{
 		/*computes beta = \|etax\| / \|\mathcal{T}_{R_etax} etax\|
 		Default: etax = (etax_1, dots, eta_n);
 		beta = \sqrt(sum \|eta_i\|_2^2) / \sqrt(sum \|\mathcal{T}_{R_{etax_i}} etax_i\|) */
-        virtual realdp Beta(const Variable &x, Vector &etax) const;
+        virtual realdp Beta(const Variable &x, const Vector &etax) const;
 
 		/*compute the distance between two points on the manifold.
 		Default: sqrt(dist_M1(x1_1, x2_2)^2 + dist_M2(x1_2, x2_2)^2 + ... + dist_M1(x1_n, x2_n)^2)
-- 
2.43.0


From 3dabc41aa2dbb1884adb4e111701fa1ceac15b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 03/63] fix: MultiManifolds::TranHInvTran ignored its operand
 Hx

It transported the previous content of result; Hx is the operator to transport.
---
 Manifolds/MultiManifolds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 15fbfbc..8bedc40 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -387,7 +387,7 @@ namespace ROPTLIB{
 		if (HasHHR)
 			return LCTranHInvTran(x, etax, y, Hx, result);
 
-        result->CopyOnWrite();
+        *result = Hx;
         
 		integer start, end = 0;
 		for (integer i = 0; i < numoftypes; i++)
-- 
2.43.0


From 919f6e0dc41b17826588eaa27202b5fd51ea5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 04/63] fix: MultiManifolds::Retraction and InvRetraction left
 extrinsic components intrinsic

With the extrinsic representation chosen for the product, the representation of
every component was set to intrinsic afterwards, whatever it was before.
---
 Manifolds/MultiManifolds.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 8bedc40..1d897ba 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -214,9 +214,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool isintrinsic = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(isintrinsic);
             }
         }
         return *result;
@@ -241,9 +242,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool isintrinsic = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(isintrinsic);
             }
         }
         
-- 
2.43.0


From b56987a374cbbbbd22ad2867a09afa932e439483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 05/63] fix: TranHInvTran of SymFixedRankQ and CSymFixedRankQ
 transported the operator as a vector

With the locking condition on, they called LCVectorTransport (which applies the
transport once, from the left) instead of LCTranHInvTran.
---
 Manifolds/CSymFixedRankQ.cpp | 2 +-
 Manifolds/SymFixedRankQ.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 25e9b52..5351e91 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -236,7 +236,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: CSymFixedRankQ::TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f2187ce..13b2bf4 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -287,7 +287,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
-- 
2.43.0


From 0997a3a7fa2bf9cee83e2e65a3aee14cf98f7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 06/63] fix: RCG::CheckParams accepted the out-of-range method
 RCGMETHODSLENGTH

---
 Solvers/RCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index 70d174d..cffa8b7 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -47,7 +47,7 @@ namespace ROPTLIB{
 		char *status;
 
 		printf("RCG METHOD PARAMETERS:\n");
-		status = (RCGmethod >= 0 && RCGmethod <= RCGMETHODSLENGTH) ? YES : NO;
+		status = (RCGmethod >= 0 && RCGmethod < RCGMETHODSLENGTH) ? YES : NO;
 		printf("RCGmethod     :%15s[%s]\n", RCGmethodSetnames[RCGmethod].c_str(), status);
 	};
 
-- 
2.43.0


From 666b33c4eb3fd7196843ddb5b38ceff9c8c31206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 07/63] fix: misspelt name of the truncated-CG status TRSM_MIN

---
 Solvers/SolversSMTR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 47f9f72..5dae2a8 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -329,7 +329,7 @@ namespace ROPTLIB{
 		tCGstatusSetSMnames = new std::string[TCGSTATUSSETSMLENGTH];
 		tCGstatusSetSMnames[TRSM_NEGCURVTURE].assign("TRSM_NEGCURVTURE");
 		tCGstatusSetSMnames[TRSM_EXCREGION].assign("TRSM_EXCREGION");
-		tCGstatusSetSMnames[TRSM_MIN].assign("TRSM__MIN");
+		tCGstatusSetSMnames[TRSM_MIN].assign("TRSM_MIN");
 		tCGstatusSetSMnames[TRSM_LCON].assign("TRSM_LCON");
 		tCGstatusSetSMnames[TRSM_SCON].assign("TRSM_SCON");
 		tCGstatusSetSMnames[TRSM_MAXITER].assign("TRSM_MAXITER");
-- 
2.43.0


From f2af8d77a7bfe0c4931323651d0e9996d4a0dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 08/63] fix: SymFixedRankQ::CheckParams printed the names of
 two metrics interchanged

---
 Manifolds/SymFixedRankQ.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 13b2bf4..5ff53eb 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -104,7 +104,7 @@ namespace ROPTLIB{
 
     void SymFixedRankQ::CheckParams(void) const
     {
-        std::string SFRANKQMetricnames[SFRANKQMETRICLENGTH] = { "SFRANKQEUC", "SFRANKQQEUC", "SFRANKQHGZ" };
+        std::string SFRANKQMetricnames[SFRANKQMETRICLENGTH] = { "SFRANKQEUC", "SFRANKQHGZ", "SFRANKQQEUC" };
         std::string SFRANKQVTnames[SFRANKQVECTORTRANSPORTLENGTH] = { "SFRANKQPARALLELIZATION", "SFRANKQPROJECTION" };
         Manifold::CheckParams();
         printf("%s PARAMETERS:\n", name.c_str());
-- 
2.43.0


From 50516f377fdc41abc635645abc03ebc58d111f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 09/63] fix: SmartSpace.cpp did not compile with
 CHECKMEMORYDELETED

---
 Manifolds/SmartSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9d42f3d..fa8f46d 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -126,7 +126,7 @@ namespace ROPTLIB{
 			if (eta.sharedtimes != nullptr && *(eta.sharedtimes) == 1)
 			{
 #ifdef CHECKMEMORYDELETED
-				(*CheckMemoryDeleted)[eta->sharedtimes] = *(eta->sharedtimes);
+				(*CheckMemoryDeleted)[eta.sharedtimes] = *(eta.sharedtimes);
 #endif
 				delete eta.sharedtimes; eta.sharedtimes = nullptr;
 				delete[] eta.Space; eta.Space = nullptr;
-- 
2.43.0


From 81c108eca6dfb932ae239b81f6059c5acba1646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 10/63] fix: Element::HaddRankone and Element::Conj wrote into
 data shared with other elements

---
 Manifolds/Element.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 40d25ab..48ab634 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1616,8 +1616,9 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = this->ObtainWritePartialData();
 
-        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, Space, &m);
+        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, thisptr, &m);
         
         return *this;
     };
@@ -1631,9 +1632,10 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = this->ObtainWritePartialData();
 
         ger_(&m, &n, &scalar, const_cast<realdpcomplex *> ((realdpcomplex *) uptr), &GLOBAL::IONE, const_cast<realdpcomplex *> ((realdpcomplex *) vptr), &GLOBAL::IONE,
-                 (realdpcomplex *) Space, &m);
+                 (realdpcomplex *) thisptr, &m);
         
         return *this;
     };
@@ -1948,7 +1950,8 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex);
         integer num = length / 2;
-        scal_(&num, &GLOBAL::DNONE, Space + 1, &GLOBAL::ITWO);
+        realdp *thisptr = this->ObtainWritePartialData();
+        scal_(&num, &GLOBAL::DNONE, thisptr + 1, &GLOBAL::ITWO);
         return (*this);
     };
 
-- 
2.43.0


From 42327e301accfa36b44208b083107681a58bafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 11/63] fix: Element::SubmatrixAssignment lost the other
 entries of a shared matrix

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 48ab634..c1aa464 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2238,7 +2238,7 @@ namespace ROPTLIB{
         assert(rend - rstart + 1 == mat.Getrow() && cend - cstart + 1 == mat.Getcol() && mat.Getiscomplex() == iscomplex);
         const realdp *matptr = mat.ObtainReadData();
         integer matrow = mat.Getrow();
-        this->NewMemoryOnWrite();
+        this->ObtainWritePartialData();
         if(!iscomplex)
         {
             for(integer j = cstart; j <= cend; j++)
-- 
2.43.0


From 55d2b640e8942aca0e9dcce0ca9e88b2e8b084af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 12/63] fix: Element::CopyOnWrite and ScaledIdOPE kept
 temporary data of the overwritten matrix

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index c1aa464..7ac652f 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2693,6 +2693,7 @@ namespace ROPTLIB{
 
     void Element::CopyOnWrite(void)
     {
+        RemoveAllFromFields();
         SmartSpace::CopyOnWrite();
         ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
     };
@@ -2861,7 +2862,7 @@ namespace ROPTLIB{
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
-        SmartSpace::NewMemoryOnWrite();
+        NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
         {
-- 
2.43.0


From d7af783c9b944073ed726f16fe928aff12513238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 13/63] fix: Element::Reshape kept the factorizations of the
 old shape

---
 Manifolds/Element.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 7ac652f..7695fd3 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1811,6 +1811,7 @@ namespace ROPTLIB{
 
     Element &Element::Reshape(integer r, integer c, integer n)
     {
+        RemoveAllFromFields(); /*the factors stored in the temporary data depend on the shape*/
         if(!iscomplex)
         {
             assert(r * c * n == length);
-- 
2.43.0


From 3303f6b6d6d932627306632fd6d0e12bb11c2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 14/63] fix: SmartSpace::CopyTo kept the shape of the target
 when the data were already shared

---
 Manifolds/SmartSpace.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index fa8f46d..9ddfc45 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -85,8 +85,17 @@ namespace ROPTLIB{
 
 	void SmartSpace::CopyTo(SmartSpace &eta) const
 	{
-		if (this == &eta || (eta.Space == Space && !(eta.Space == nullptr && Space == nullptr)))
+		if (this == &eta)
 			return;
+		if (eta.Space == Space && Space != nullptr)
+		{ /*the data are already shared, only the shapes may differ*/
+			if (eta.ls == ls && eta.length == length)
+			{
+				for (integer i = 0; i < ls; i++)
+					eta.size[i] = size[i];
+			}
+			return;
+		}
         
 		bool IsSameSize = true;
         
-- 
2.43.0


From e5aa8a6eebe29ecdeded860ddb9bd7b305bc4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 15/63] fix: assignment of a product element kept stale
 temporary data in the components of the target

---
 Manifolds/Element.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 7695fd3..3206f66 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2590,6 +2590,8 @@ namespace ROPTLIB{
 
     void Element::CopyTo(Element &eta) const
     {
+        if (this == &eta)
+            return;
         SmartSpace::CopyTo(eta);
         eta.Setiscomplex(iscomplex);
         eta.ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
@@ -2597,6 +2599,7 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                eta.GetElement(j).RemoveAllFromFields();
                 elements[j].CopyFieldsTo(eta.GetElement(j));
             }
         }
-- 
2.43.0


From 8bc9f71312c56147fa08c7b7e5dd1ee8ebded1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 16/63] fix: Element::GetRealInComplex and GetImagInComplex
 returned a half filled complex matrix

---
 Manifolds/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 3206f66..b0d6967 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2547,7 +2547,7 @@ namespace ROPTLIB{
     Element Element::GetRealInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
@@ -2559,7 +2559,7 @@ namespace ROPTLIB{
     Element Element::GetImagInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
-- 
2.43.0


From 7336568f199c140aec0e40709cb7ed085a3ea1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 17/63] fix: assignment of a product element kept the shapes of
 the components of the target

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index b0d6967..4e3ea47 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2936,7 +2936,8 @@ namespace ROPTLIB{
         {
             for(integer i = 0; i < innumofelements; i++)
             {
-                if(inelements[i].Getlength() != elements[i].Getlength())
+                if(inelements[i].Getlength() != elements[i].Getlength() || inelements[i].Getrow() != elements[i].Getrow()
+                   || inelements[i].Getcol() != elements[i].Getcol() || inelements[i].Getiscomplex() != elements[i].Getiscomplex())
                 {
                     issamesize = false;
                     break;
-- 
2.43.0


From 109cb81f0d28c8a27dfa2df0c9c68e645aefd4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 18/63] fix: assigning one of its own temporary data to an
 element used that data after it was deleted

---
 Manifolds/Element.cpp | 19 ++++++++-----------
 Manifolds/Element.h   |  1 +
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 4e3ea47..c9b2553 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2605,7 +2605,7 @@ namespace ROPTLIB{
         }
         
         MAP::const_iterator thisiter = Fields.begin();
-        MAP::const_iterator etaiter, etaiterpre;
+        MAP::const_iterator etaiter;
         for (thisiter = Fields.begin(); thisiter != Fields.end(); thisiter++)
         {
             etaiter = eta.Fields.find(thisiter->first);
@@ -2621,18 +2621,15 @@ namespace ROPTLIB{
         }
         if (Fields.size() < eta.Fields.size())
         {
-            for (etaiter = eta.Fields.begin(); etaiter != eta.Fields.end();)
+            /*"this" may itself be stored in the fields of eta. It is not used anymore once an entry has been removed.*/
+            std::vector<std::string> names;
+            for (etaiter = eta.Fields.begin(); etaiter != eta.Fields.end(); etaiter++)
             {
-                thisiter = Fields.find(etaiter->first);
-                if (thisiter == Fields.end())
-                {
-                    etaiterpre = etaiter;
-                    etaiter++;
-                    eta.RemoveFromFields(etaiterpre->first);
-                }
-                else
-                    etaiter++;
+                if (Fields.find(etaiter->first) == Fields.end())
+                    names.push_back(etaiter->first);
             }
+            for (size_t i = 0; i < names.size(); i++)
+                eta.RemoveFromFields(names[i]);
         }
     };
 
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index b541cc1..b2e50ad 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -19,6 +19,7 @@ SmartSpace --> Element
 #include "Others/randgen.h"
 #include <cstdarg>
 #include <map>
+#include <vector>
 #include <string>
 #include "Manifolds/SmartSpace.h"
 #include "Others/SparseBLAS/blas_sparse.h"
-- 
2.43.0


From 792de0719d3c2bde475a2812f1381c062e5a74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 19/63] fix: Euclidean, SphereTx and FixedRankE attached the
 Euclidean gradient of a product component without owning its memory

---
 Manifolds/Euclidean.cpp  | 7 ++++++-
 Manifolds/FixedRankE.cpp | 7 ++++++-
 Manifolds/SphereTx.cpp   | 8 +++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/Manifolds/Euclidean.cpp b/Manifolds/Euclidean.cpp
index 9976f3f..5f05a2f 100644
--- a/Manifolds/Euclidean.cpp
+++ b/Manifolds/Euclidean.cpp
@@ -140,7 +140,12 @@ namespace ROPTLIB{
 	{
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
+            If the attached data shared the memory of the product of elements, then it would be invalid after the product
+            of elements is released.*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
         *result = egf;
         return *result;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..819ab1e 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -278,7 +278,12 @@ namespace ROPTLIB{
         Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
+            If the attached data shared the memory of the product of elements, then it would be invalid after the product
+            of elements is released.*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
         return *result;
 	};
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..a7b9da6 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -151,7 +151,13 @@ namespace ROPTLIB{
 	{
         if (prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
+            If the attached data shared the memory of the product of elements, then it would be invalid after the product
+            of elements is released.*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            egf.CopyFieldsTo(EGrad);
+            x.AddToFields("EGrad", EGrad);
         }
         return Projection(x, egf, result);
 	};
-- 
2.43.0


From 207dd08c4ed7791fecd4cecb7de37ce5c5808364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 20/63] fix: Problem::NumGradHess was uninitialised in problems
 that do not set it

---
 Problems/Problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index e721254..44026ba 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -110,7 +110,7 @@ namespace ROPTLIB{
 		Manifold *Domain; /*Domain of the cost function. It is required to be assigned.*/
 		mutable bool UseGrad; /*Mark whether the gradient is used*/
 		mutable bool UseHess; /*Mark whether the action of the Hessian is used.*/
-        mutable bool NumGradHess;
+        mutable bool NumGradHess = false;
 	};
 
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From ec4efb45a05b2e40c116bb6d9242d61b13190c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 21/63] fix: CStiefel::ObtainNorVerExtr used undefined
 imaginary parts on the diagonal

---
 Manifolds/CStiefel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index be3044d..61b7359 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -389,6 +389,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < p; i++)
         {
             xTetaxptr[i + i * p].r = intretaxptr[idx];
+            xTetaxptr[i + i * p].i = 0;
             idx++;
         }
         for(integer i = 0; i < p; i++)
-- 
2.43.0


From d28c7e849801c2759c73dde4e277792d5497b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 22/63] fix: the strong Wolfe line search leaves with the
 gradient at the point it returns

---
 Solvers/SolversSMLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e73b786..60ef204 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -530,6 +530,7 @@ namespace ROPTLIB{
 			times++;
 			if (times >= 10)
 			{
+				newslope = dh();
 				LSstatus = LSSM_LSERROR;
 				return;
 			}
@@ -557,6 +558,7 @@ namespace ROPTLIB{
 			}
 			if (stepsize <= Minstepsize)
 			{
+				newslope = dh();
 				LSstatus = LSSM_MINSTEPSIZE;
 				return;
 			}
-- 
2.43.0


From 55011701022b745f9d7cac499db2fcc40068375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 23/63] fix: inner products and combinations of tangent vectors
 at x1 use x1 as the base point

---
 Solvers/AManPG.cpp      | 2 +-
 Solvers/ManPG.cpp       | 2 +-
 Solvers/RNewton.cpp     | 4 ++--
 Solvers/SolversSMLS.cpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 93045c1..8c57016 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -136,7 +136,7 @@ namespace ROPTLIB{
                 Mani->TangentSpaceProximalMap(x1, gf1, adavalue, SMtol, SMlambda, Prob, &initD, &SMiter, &SMCGiter, &eta1);
                 totalSMiter += SMiter;
                 totalSMCGiter += SMCGiter;
-                ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+                ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
                 if(ndir0 == 0)
                 { /*initialize ndir0*/
                     ndir0 = ndir1;
diff --git a/Solvers/ManPG.cpp b/Solvers/ManPG.cpp
index 8f959af..f5a1c09 100644
--- a/Solvers/ManPG.cpp
+++ b/Solvers/ManPG.cpp
@@ -61,7 +61,7 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+            ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
             if(ndir0 == 0)
             { /*initialize ndir0*/
                 ndir0 = ndir1;
diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 31b7b63..858b4a8 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -161,8 +161,8 @@ namespace ROPTLIB{
 			zold_rold = z_r;
 			z_r = Mani->Metric(x1, z, r);
 			betatemp = z_r / zold_rold;
-            Mani->ScalarTimesVector(x2, betatemp, delta, &delta);
-            Mani->ScalarVectorAddVector(x2, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
+            Mani->ScalarTimesVector(x1, betatemp, delta, &delta);
+            Mani->ScalarVectorAddVector(x1, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
 		}
 		innerIter = j;
 		if (j == 0)
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 60ef204..612c35d 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -217,8 +217,8 @@ namespace ROPTLIB{
                 Mani->VectorTransport(x2, eta2, x1, eta2, &s);
                 Mani->VectorTransport(x2, eta2, x1, gf2, &y);
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
-				BB1 = Mani->Metric(x2, s, s) / Mani->Metric(x2, s, y);
-				BB2 = Mani->Metric(x2, s, y) / Mani->Metric(x2, y, y);
+				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
+				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
 				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
 				if (pre_BBs.size() > Num_pre_BB)
 					pre_BBs.pop_back();
-- 
2.43.0


From aaa6fb417486391ef6228e7fdb1b3075754ceaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 24/63] fix: AManPG and the subgradient methods keep an iterate
 whose function value is a number

---
 Solvers/AManPG.cpp          | 5 +++++
 Solvers/SolversNSMSubLS.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 8c57016..4ab68af 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -205,6 +205,11 @@ namespace ROPTLIB{
             
             Mani->Retraction(y1, eta1, &z2);
             fz2 = Prob->f(z2);
+            if (std::isnan(fz2) || std::isinf(fz2)) /*Stop when got a nan or inf*/
+            {
+                printf("New function value is either nan or inf. Stop!\n");
+                break;
+            }
             s2 = (1.0 + std::sqrt(1.0 + 4.0 * s1 * s1)) / 2.0;
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 808097d..db798cd 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -81,6 +81,12 @@ namespace ROPTLIB{
                 printf("Linesearch fails! LSstatus:%s\n", LSstatusSetnames[LSstatus].c_str());
             }
 
+			if (std::isnan(f2) || std::isinf(f2)) /*Stop when got a nan or inf*/
+			{
+				printf("New function value is either nan or inf. Stop!\n");
+				break;
+			}
+
 			iter++;
 
 			/*Update some data, such as Hessian approximation in quasi-Newton methods, etc*/
-- 
2.43.0


From f5d1ffbef209912f61ee92975909c48dc20fdb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 25/63] fix: operation counts include the evaluations and
 transports of AManPG, BB steps, LRTRSR1 and the subgradient methods

---
 Solvers/AManPG.cpp          | 10 +++++-----
 Solvers/LRTRSR1.cpp         |  4 ++--
 Solvers/SolversNSMSubLS.cpp |  2 +-
 Solvers/SolversSMLS.cpp     |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 4ab68af..ee37d17 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -203,8 +203,8 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            Mani->Retraction(y1, eta1, &z2);
-            fz2 = Prob->f(z2);
+            Mani->Retraction(y1, eta1, &z2); nR++;
+            fz2 = Prob->f(z2); nf++;
             if (std::isnan(fz2) || std::isinf(fz2)) /*Stop when got a nan or inf*/
             {
                 printf("New function value is either nan or inf. Stop!\n");
@@ -214,10 +214,10 @@ namespace ROPTLIB{
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
             
-            Mani->Retraction(z2, zeta, &y2);
+            Mani->Retraction(z2, zeta, &y2); nR++;
             
-            fy2 = Prob->f(y2);
-            Prob->Grad(y2, &gfy2);
+            fy2 = Prob->f(y2); nf++;
+            Prob->Grad(y2, &gfy2); ng++;
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index ef2c5f6..6426a33 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -449,8 +449,8 @@ namespace ROPTLIB{
 	{
 		for (integer i = 0; i < Currentlength; i++)
 		{
-			Mani->VectorTransport(x1, eta2, x2, S[i], &S[i]);
-			Mani->VectorTransport(x1, eta2, x2, Y[i], &Y[i]);
+			Mani->VectorTransport(x1, eta2, x2, S[i], &S[i]); nVp++;
+			Mani->VectorTransport(x1, eta2, x2, Y[i], &Y[i]); nVp++;
 		}
 	};
 
diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index db798cd..49b8845 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -272,7 +272,7 @@ namespace ROPTLIB{
 			/*get gf2 and stepsize*/
 			Increasing(ndir1, Pngfsq, hb);
             Vector invTgf2(gf2);
-            Mani->InverseVectorTransport(x1, eta2, x2, gf2, &invTgf2);
+            Mani->InverseVectorTransport(x1, eta2, x2, gf2, &invTgf2); nVp++;
 			realdp betay = Mani->Beta(x1, eta2);
 			Mani->ScalarTimesVector(x1, static_cast<realdp> (1) / betay, invTgf2, &invTgf2);
             gfs[Currentlengthgfs] = invTgf2;
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 612c35d..6e90997 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -214,8 +214,8 @@ namespace ROPTLIB{
 			case LSSM_BBSTEP:
 				/*Since x1 and x2 are swapped, gf1 and gf2 are swapped, we have the following formula.*/
                     
-                Mani->VectorTransport(x2, eta2, x1, eta2, &s);
-                Mani->VectorTransport(x2, eta2, x1, gf2, &y);
+                Mani->VectorTransport(x2, eta2, x1, eta2, &s); nV++;
+                Mani->VectorTransport(x2, eta2, x1, gf2, &y); nVp++;
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
 				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
 				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
-- 
2.43.0


From e59f51728ea1f1f1850e3251dc4b176785a3814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 26/63] fix: the epsilon-subgradient search leaves with the
 gradient at its last trial point

---
 Solvers/SolversNSMSubLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 49b8845..a5f84f7 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -310,6 +310,8 @@ namespace ROPTLIB{
 			}
 			times++;
 		}
+		if (times >= 10)
+			dh(); /* gf2 has to be the gradient at the last trial point */
 		if (times == 10 && Verbose >= ITERRESULT)
 		{
 			printf("warning: the loop in SolversNSMSubLS::Increasing reaches the upperbound!\n");
-- 
2.43.0


From a3e1421a8b82c25d0ef90433d690d167d363b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 27/63] fix: RWRBFGS updates its inverse Hessian approximation
 at x1, where it lives until transported

---
 Solvers/RWRBFGS.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/RWRBFGS.cpp b/Solvers/RWRBFGS.cpp
index 53eb0ff..1c4a074 100644
--- a/Solvers/RWRBFGS.cpp
+++ b/Solvers/RWRBFGS.cpp
@@ -145,11 +145,11 @@ namespace ROPTLIB{
         if (inpsy / inpss >= nu * pow(ngf2, mu) && (ngf2 / ngf0 < 1e-3 ||
         (inpss > std::numeric_limits<realdp>::epsilon() && inpsy > std::numeric_limits<realdp>::epsilon())))
         {
-            Vector Hy(y); Mani->LinearOPEEta(x2, H, y, &Hy); nH++;
-            Mani->HaddScaledRank1OPE(x2, H, static_cast<realdp> (-1) / inpsy, s, Hy, &H);
-            Mani->LinearOPEEta(x2, H, y, &Hy);
-            Mani->HaddScaledRank1OPE(x2, H, static_cast<realdp> (-1) / inpsy, Hy, s, &H);
-            Mani->HaddScaledRank1OPE(x2, H, static_cast<realdp> (1) / inpsy, s, s, &H);
+            Vector Hy(y); Mani->LinearOPEEta(x1, H, y, &Hy); nH++;
+            Mani->HaddScaledRank1OPE(x1, H, static_cast<realdp> (-1) / inpsy, s, Hy, &H);
+            Mani->LinearOPEEta(x1, H, y, &Hy);
+            Mani->HaddScaledRank1OPE(x1, H, static_cast<realdp> (-1) / inpsy, Hy, s, &H);
+            Mani->HaddScaledRank1OPE(x1, H, static_cast<realdp> (1) / inpsy, s, s, &H);
             Mani->TranHInvTran(x1, eta2, x2, H, &H);
             isupdated = true;
         }
-- 
2.43.0


From 2db371f7d0a0b6d4ccb7219389a98ac1b9794f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 28/63] fix: trust region methods record the function value and
 gradient norm of the iterate, not of a rejected candidate

---
 Solvers/SolversSMTR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 5dae2a8..9e44a4f 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -108,8 +108,8 @@ namespace ROPTLIB{
 			if (Verbose >= ITERRESULT)
 			{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2;
-                gradSeriesptr[iter] = ngf2;
+				funSeriesptr[iter] = f1;
+                gradSeriesptr[iter] = ngf1;
 			}
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-- 
2.43.0


From f6036a65040f0b3273e952e7f16e90047beca3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 29/63] fix: inverse vector transport by parallelization of
 (C)FixedRankQ2F reads the vector at the point it belongs to

---
 Manifolds/CFixedRankQ2F.cpp | 2 +-
 Manifolds/FixedRankQ2F.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 9842671..7835764 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -381,7 +381,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 7691906..9c6b456 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -353,7 +353,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
-- 
2.43.0


From 24a772b93e8aaedc63b999448e518ced5744d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 30/63] fix: vector transport by projection of (C)SymFixedRankQ
 projects in the intrinsic representation as well

---
 Manifolds/CSymFixedRankQ.cpp | 1 +
 Manifolds/SymFixedRankQ.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 5351e91..6add1c1 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -732,6 +732,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 5ff53eb..a49bc90 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -922,6 +922,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
-- 
2.43.0


From eac862b66cfb4259bf6af754627da0d3d594254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 31/63] fix: Cayley retraction and transports of Stiefel
 convert intrinsic vectors and use the extrinsic ones

---
 Manifolds/Stiefel.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 6fbe5d5..67684fb 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -735,10 +735,10 @@ namespace ROPTLIB{
         realdp *Mk3ptr = Mk3.ObtainWriteEntireData();
         realdp *LUPptr = LUP.ObtainWriteEntireData();
         realdp *Uptr = U.ObtainWriteEntireData();
-        Vector Mk211(p, p); Mk211.AlphaABaddBetaThis(0.5, x, GLOBAL::T, etax, GLOBAL::N, 0); /* Mk211 = 0.5 * x.GetTranspose() * etax; */
+        Vector Mk211(p, p); Mk211.AlphaABaddBetaThis(0.5, x, GLOBAL::T, exetax, GLOBAL::N, 0); /* Mk211 = 0.5 * x.GetTranspose() * exetax; */
         
 		const realdp *xptr = x.ObtainReadData();
-		const realdp *etaxptr = etax.ObtainReadData();
+		const realdp *etaxptr = exetax.ObtainReadData();
 
 		integer P = p, N = n, P2 = p * 2;
 		realdp half = 0.5;
@@ -852,11 +852,11 @@ namespace ROPTLIB{
 
 			delete[] Mk2Mk3;
             if(IsIntrApproach)
-                ObtainIntr(x, exresult, result);
+                ObtainIntr(y, exresult, result);
             else
                 *result = exresult;
             
-			ScalarTimesVector(x, sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)), *result, result);
+			ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)), *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
@@ -897,7 +897,7 @@ namespace ROPTLIB{
 		copy_(&length, const_cast<realdp *> (Uptr + n * p), &GLOBAL::IONE, V, &GLOBAL::IONE);
 		copy_(&length, const_cast<realdp *> (Uptr), &GLOBAL::IONE, V + n * p, &GLOBAL::IONE);
 		scal_(&length, &GLOBAL::DNONE, V + n * p, &GLOBAL::IONE);
-		const realdp *xixptr = xix.ObtainReadData();
+		const realdp *xixptr = exxix.ObtainReadData();
 		integer N = n, P = p, P2 = p * 2;
 		gemm_(GLOBAL::T, GLOBAL::N, &P2, &P, &N, &GLOBAL::DONE, V, &N, const_cast<realdp *> (xixptr), &N, &GLOBAL::DZERO, Vtxix, &P2);
 
@@ -910,7 +910,7 @@ namespace ROPTLIB{
 			printf("Warning: getrs in Stiefel::DiffCayleyRetraction failed!\n");
 		delete[] Perm;
 
-        Vector exresult(xix);
+        Vector exresult(exxix);
 		realdp *exresultptr = exresult.ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, const_cast<realdp *> (Uptr), &N, Vtxix, &P2, &GLOBAL::DONE, exresultptr, &N);
 		delete[] V;
@@ -938,7 +938,7 @@ namespace ROPTLIB{
 		copy_(&length, const_cast<realdp *> (Uptr + n * p), &GLOBAL::IONE, V, &GLOBAL::IONE);
 		copy_(&length, const_cast<realdp *> (Uptr), &GLOBAL::IONE, V + n * p, &GLOBAL::IONE);
 		scal_(&length, &GLOBAL::DNONE, V + n * p, &GLOBAL::IONE);
-		const realdp *xiyptr = xiy.ObtainReadData();
+		const realdp *xiyptr = exxiy.ObtainReadData();
 		integer N = n, P = p, P2 = p * 2;
 		gemm_(GLOBAL::T, GLOBAL::N, &P2, &P, &N, &GLOBAL::DONE, const_cast<realdp *> (Uptr), &N, const_cast<realdp *> (xiyptr), &N, &GLOBAL::DZERO, Utxiy, &P2);
 
@@ -951,7 +951,7 @@ namespace ROPTLIB{
 			printf("Warning: getrs in Stiefel::DiffCayleyRetraction failed!\n");
 		delete[] Perm;
 
-        Vector exresult(xiy);
+        Vector exresult(exxiy);
 		realdp *exresultptr = exresult.ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, V, &N, Utxiy, &P2, &GLOBAL::DONE, exresultptr, &N);
 		delete[] V;
-- 
2.43.0


From d139b04dde439d75d5500384c5f1a9be92a3411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 32/63] fix: limited-memory solvers start every Run with an
 empty memory

---
 Solvers/LRBFGS.cpp    | 3 +++
 Solvers/LRBFGSSub.cpp | 3 +++
 Solvers/LRTRSR1.cpp   | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 1782b5c..00e6d81 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,9 @@ namespace ROPTLIB{
 		if (RHO != nullptr)
 			delete[] RHO;
 		RHO = new realdp[LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
 		SolversSMLS::Run();
 	};
 
diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 8c70bac..77d4134 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -13,6 +13,9 @@ namespace ROPTLIB{
         if (RHO != nullptr)
             delete[] RHO;
         RHO = new realdp[LengthSY];
+        Currentlength = 0;
+        beginidx = 0;
+        gamma = 1;
         SolversNSMSubLS::Run();
 	};
 
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 6426a33..e46401f 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -85,6 +85,10 @@ namespace ROPTLIB{
 		if (SY != nullptr)
 			delete[] SY;
 		SY = new realdp[LengthSY * LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
+		isupdated = false;
 		SolversSMTR::Run();
 	};
 
-- 
2.43.0


From 421a274f33896a8b9ea6fe0cdfafa225be23e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 33/63] fix: line search solvers forget the Barzilai-Borwein
 steps of an earlier Run

---
 Solvers/SolversSMLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 6e90997..555e63d 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
         Variable xTemp(x1);
         Vector gfTemp = Prob->GetDomain()->GetEMPTY();
 		pre_funs.clear();
+		pre_BBs.clear();
 
 		SolversSM::Run();
 
-- 
2.43.0


From 6f2b34c44f7dfe94cb96c6e17797c1059e3fabca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 34/63] fix: the user-defined stopping criterion sees the
 initial iterate when a solver is run again

---
 Solvers/Solvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 0c8d7e3..1a94bc5 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -34,6 +34,7 @@ namespace ROPTLIB{
 		mexCallMATLAB(0, lhs, 1, rhs, "feval");
 #endif
 		starttime = getTickCount();
+		x2 = x1; /*the stopping criterion of the first iteration looks at x2*/
 		if (Verbose >= ITERRESULT)
 		{
             timeSeries = Vector(1 + Max_Iteration);
-- 
2.43.0


From 4fd69c686e7dadafbc154a00e6dc971d34a5bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 35/63] fix: the user-defined stopping criterion is given the
 number of stored function values

---
 Solvers/AManPG.cpp          | 2 ++
 Solvers/ManPG.cpp           | 2 ++
 Solvers/Solvers.cpp         | 1 +
 Solvers/SolversNSMSubLS.cpp | 2 ++
 Solvers/SolversSMLS.cpp     | 2 ++
 Solvers/SolversSMTR.cpp     | 2 ++
 6 files changed, 11 insertions(+)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index ee37d17..5640442 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -124,6 +124,7 @@ namespace ROPTLIB{
             dirSeriesptr[iter] = 0;
             initialstepsizeptr[iter] = 0;
             acceptedstepsizeptr[iter] = 0;
+            lengthSeries = iter + 1;
         }
         
         bool isstop = IsStopped();
@@ -237,6 +238,7 @@ namespace ROPTLIB{
                 funSeriesptr[iter] = f2; dirSeriesptr[iter] = ndir1;
                 acceptedstepsizeptr[iter] = stepsize;
                 initialstepsizeptr[iter] = initiallength;
+                lengthSeries = iter + 1;
             }
             
             xTemp = z1; z1 = z2; z2 = xTemp;
diff --git a/Solvers/ManPG.cpp b/Solvers/ManPG.cpp
index f5a1c09..589eea5 100644
--- a/Solvers/ManPG.cpp
+++ b/Solvers/ManPG.cpp
@@ -51,6 +51,7 @@ namespace ROPTLIB{
             dirSeriesptr[iter] = 0;
             initialstepsizeptr[iter] = 0;
             acceptedstepsizeptr[iter] = 0;
+            lengthSeries = iter + 1;
         }
         
         bool isstop = IsStopped();
@@ -131,6 +132,7 @@ namespace ROPTLIB{
                 funSeriesptr[iter] = f2; dirSeriesptr[iter] = ndir1;
                 acceptedstepsizeptr[iter] = stepsize;
                 initialstepsizeptr[iter] = initiallength;
+                lengthSeries = iter + 1;
             }
             /*Switch information at x1 and x2*/
             xTemp = x1; x1 = x2; x2 = xTemp;
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 1a94bc5..5114aaa 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -34,6 +34,7 @@ namespace ROPTLIB{
 		mexCallMATLAB(0, lhs, 1, rhs, "feval");
 #endif
 		starttime = getTickCount();
+		lengthSeries = 0;
 		x2 = x1; /*the stopping criterion of the first iteration looks at x2*/
 		if (Verbose >= ITERRESULT)
 		{
diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index a5f84f7..eef02ef 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -32,6 +32,7 @@ namespace ROPTLIB{
 			dirSeriesptr[iter] = 0;
             initialstepsizeptr[iter] = 0;
             acceptedstepsizeptr[iter] = 0;
+			lengthSeries = iter + 1;
 		}
 		bool isstop = false;
 		realdp ftmp = 0;
@@ -104,6 +105,7 @@ namespace ROPTLIB{
 				funSeriesptr[iter] = f2; dirSeriesptr[iter - 1] = ndir1;
                 initialstepsizeptr[iter] = initiallength;
                 acceptedstepsizeptr[iter] = stepsize;
+				lengthSeries = iter + 1;
 			}
 
 			/*Switch information at x1 and x2*/
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 555e63d..d9934f5 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -41,6 +41,7 @@ namespace ROPTLIB{
 			gradSeriesptr[iter] = ngf1;
 			initialstepsizeptr[iter] = 0;
 			acceptedstepsizeptr[iter] = 0;
+			lengthSeries = iter + 1;
 		}
 		bool isstop = IsStopped();
         Vector exeta1(Mani->GetEMPTYEXTR());
@@ -125,6 +126,7 @@ namespace ROPTLIB{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 				funSeriesptr[iter] = f2; gradSeriesptr[iter] = ngf2;
 				acceptedstepsizeptr[iter] = stepsize;
+				lengthSeries = iter + 1;
 			}
 			/*Switch information at x1 and x2*/
             xTemp = x1;
diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 9e44a4f..ff3ff9d 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -30,6 +30,7 @@ namespace ROPTLIB{
 			timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 			funSeriesptr[iter] = f1;
             gradSeriesptr[iter] = ngf1;
+			lengthSeries = iter + 1;
 		}
 		Delta = initial_Delta;
 		bool isstop = IsStopped();
@@ -110,6 +111,7 @@ namespace ROPTLIB{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 				funSeriesptr[iter] = f1;
                 gradSeriesptr[iter] = ngf1;
+				lengthSeries = iter + 1;
 			}
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-- 
2.43.0


From 0a16abc84c60f8719b398bc923b670499c63fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:54 +0000
Subject: [PATCH 36/63] fix: subgradient solvers report the length of the
 vector that ended the search for a direction

---
 Solvers/SolversNSMSubLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index eef02ef..251a948 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -259,6 +259,7 @@ namespace ROPTLIB{
 			}
 			if (nminPv <= Del)
 			{
+				ndir1 = nminPv;
 				return;
 			}
             /*end the stopping criterion*/
-- 
2.43.0


From b42e41ab1c440cc3163c2419c1512d224c610054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 37/63] fix: FixedRankE starts without the locking condition
 option like every other manifold

---
 Manifolds/FixedRankE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 819ab1e..c515165 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -11,6 +11,7 @@ namespace ROPTLIB{
 		r = inr;
 		name.assign("FixedRankEmbedded");
         IsIntrApproach = false;
+        HasHHR = false;
         ExtrinsicDim = n * m;
         IntrinsicDim = (m - r) * r + r * r + (n - r) * r;
         EMPTYEXTR = Vector(m, n);
-- 
2.43.0


From 30a0657eaf3844af4de578b65c813b84f6c089c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 38/63] fix: a problem has its options and no domain before a
 solver or the user sets them

---
 Problems/Problem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index 44026ba..d1a2fdd 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -107,9 +107,9 @@ namespace ROPTLIB{
         inline bool GetNumGradHess(void) const { return NumGradHess; };
         
 	protected:
-		Manifold *Domain; /*Domain of the cost function. It is required to be assigned.*/
-		mutable bool UseGrad; /*Mark whether the gradient is used*/
-		mutable bool UseHess; /*Mark whether the action of the Hessian is used.*/
+		Manifold *Domain = nullptr; /*Domain of the cost function. It is required to be assigned.*/
+		mutable bool UseGrad = true; /*Mark whether the gradient is used*/
+		mutable bool UseHess = true; /*Mark whether the action of the Hessian is used.*/
         mutable bool NumGradHess = false;
 	};
 
-- 
2.43.0


From b41c4cad4e234605cfe4862d61203515b73fefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 39/63] fix: subgradient solvers without an iteration report
 the initial gradient norm

---
 Solvers/SolversNSMSubLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 251a948..4a16829 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -14,6 +14,7 @@ namespace ROPTLIB{
 		f2 = f1 + 1;
         Prob->Grad(x1, &gf1); ng++;
 		ndir0 = sqrt(Mani->Metric(x1, gf1, gf1));
+		ndir1 = ndir0;
 		newslope = 0;
 		iter = 0;
         Vector initialstepsize(1 + Max_Iteration), acceptedstepsize(1 + Max_Iteration);
-- 
2.43.0


From bf3badc088abbe35a5bd3755a747d632992f9de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 40/63] fix: solvers that solve subproblems with another solver
 keep their own start time

---
 Solvers/Solvers.cpp | 1 +
 Solvers/Solvers.h   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 5114aaa..ee4eeb5 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -34,6 +34,7 @@ namespace ROPTLIB{
 		mexCallMATLAB(0, lhs, 1, rhs, "feval");
 #endif
 		starttime = getTickCount();
+		ROPTLIB::starttime = starttime;
 		lengthSeries = 0;
 		x2 = x1; /*the stopping criterion of the first iteration looks at x2*/
 		if (Verbose >= ITERRESULT)
diff --git a/Solvers/Solvers.h b/Solvers/Solvers.h
index 10a6997..e2c5204 100644
--- a/Solvers/Solvers.h
+++ b/Solvers/Solvers.h
@@ -165,6 +165,7 @@ namespace ROPTLIB{
 										 number of vector transport (See GetnVp(void) for details)
 										 number of action of Hessian*/
 		Vector timeSeries, funSeries; /*three arrays to store the computational time, function values*/
+        unsigned long starttime = 0; /*the time this solver started to run; a solver may run another one in each iteration*/
         integer lengthSeries;        /*the length of above three arrays, i.e., the length of timeSeries, funSeries, distSeries.*/
 
 		Vector SolverInfo;/*Other information for output*/
-- 
2.43.0


From e40cf63578679af3494a51262d458d6aab0c8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 41/63] fix: proximal gradient solvers start every Run with the
 initial accuracy of the proximal mapping

---
 Solvers/AManPG.cpp         | 3 ++-
 Solvers/SolversNSMPGLS.cpp | 9 +++++++++
 Solvers/SolversNSMPGLS.h   | 3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 5640442..edad4e3 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -93,7 +93,8 @@ namespace ROPTLIB{
         Variable xTemp;
         Vector gfTemp;
         
-        SolversNSM::Run();
+        initDy = Vector ();
+        SolversNSMPGLS::Run();
 
         LSstatus = LSPG_SUCCESS;
         f1 = Prob->f(x1); nf++;
diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index e8fddf0..be54430 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -19,6 +19,15 @@ namespace ROPTLIB{
         eta2 = Prob->GetDomain()->GetEMPTY();
 	};
 
+	void SolversNSMPGLS::Run(void)
+	{
+        SMlambda = 0.2;
+        SMtol = 1e-10;
+        adavalue = 1;
+        initD = Vector ();
+		SolversNSM::Run();
+	};
+
 	void SolversNSMPGLS::SetDefaultParams()
 	{
 		SolversNSM::SetDefaultParams();
diff --git a/Solvers/SolversNSMPGLS.h b/Solvers/SolversNSMPGLS.h
index abf7829..67a5204 100644
--- a/Solvers/SolversNSMPGLS.h
+++ b/Solvers/SolversNSMPGLS.h
@@ -58,6 +58,9 @@ namespace ROPTLIB{
         /*the minimum stepsize allowed in the linesearch algorithm
         Default: 2e-2*/
         realdp Minstepsize;
+        /*Run the algorithm. In this class, this function only initializes the data of the proximal mapping. */
+        virtual void Run(void);
+
 	protected:
         /*The Armijo-Goldstein condition by the simple backtracking algorithm*/
         virtual void LinesearchArmijo(void);
-- 
2.43.0


From 0163a5624eadbf21abc1431988d39424fb5ba1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 42/63] fix: RBroydenFamily prints no coefficient of an update
 it has not made

---
 Solvers/RBroydenFamily.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/RBroydenFamily.cpp b/Solvers/RBroydenFamily.cpp
index 95c03fe..1feb381 100644
--- a/Solvers/RBroydenFamily.cpp
+++ b/Solvers/RBroydenFamily.cpp
@@ -135,6 +135,7 @@ namespace ROPTLIB{
     void RBroydenFamily::UpdateDataRBroydenFamily(void)
     {
         realdp yHy;
+        phic = 0;
         Mani->VectorTransport(x1, eta2, x2, eta2, &s); nV++;
         Vector Tgf1(gf1); Mani->VectorTransport(x1, eta2, x2, gf1, &Tgf1); nVp++;
         betay = Mani->Beta(x1, eta2);
-- 
2.43.0


From 34481420d26da529d079a4748a4c4f4c2694a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 43/63] fix: LRTRSR1 prints a defined number of inner
 iterations

---
 Solvers/LRTRSR1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index e46401f..b9b4760 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -181,6 +181,7 @@ namespace ROPTLIB{
 
         realdp sigmaStar = 0;
         tCGstatusSM = TRSM_MIN;
+        innerIter = 0; /*the subproblem is solved without truncated conjugate gradient iterations*/
 
         if (lambda_min > 0 && tmpv <= Delta)
         {
-- 
2.43.0


From c750ce8d43e1334dad4db9c734e67b795c694f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 44/63] fix: linear combinations on products use those of the
 component manifolds

---
 Manifolds/MultiManifolds.cpp | 63 ++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 1d897ba..50dfb96 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -146,17 +146,74 @@ namespace ROPTLIB{
 
     Vector &MultiManifolds::ScalarTimesVector(const Variable &x, const realdp &scalar, const Vector &etax, Vector *result) const
     {
-        return Manifold::ScalarTimesVector(x, scalar, etax, result);
+        /*the intrinsic representation of a quotient of a product is not a product of elements*/
+        if(etax.Getnumofelements() == 0)
+        {
+            return Manifold::ScalarTimesVector(x, scalar, etax, result);
+        }
+
+        /*etax and result may be the same. Store etax first then new memory for result. Otherwise, the memory in etax is also changed.*/
+        Vector inetax = etax;
+        *result = inetax;
+        result->NewMemoryOnWrite();
+        
+        for(integer i = 0; i < numoftypes; i++)
+        {
+            for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
+            {
+                manifolds[i]->ScalarTimesVector(x.GetElement(j), scalar, inetax.GetElement(j), &(result->GetElement(j)));
+            }
+        }
+        
+        return *result;
     };
 
     Vector &MultiManifolds::ScalarVectorAddVector(const Variable &x, const realdp &scalar, const Vector &etax, const Vector &xix, Vector *result) const
     {
-        return Manifold::ScalarVectorAddVector(x, scalar, etax, xix, result);
+        /*the intrinsic representation of a quotient of a product is not a product of elements*/
+        if(xix.Getnumofelements() == 0)
+        {
+            return Manifold::ScalarVectorAddVector(x, scalar, etax, xix, result);
+        }
+
+        /*etax or xix and result may be the same. Store them first then new memory for result. Otherwise, the memory in them is also changed.*/
+        Vector inetax = etax, inxix = xix;
+        *result = inxix;
+        result->NewMemoryOnWrite();
+        
+        for(integer i = 0; i < numoftypes; i++)
+        {
+            for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
+            {
+                manifolds[i]->ScalarVectorAddVector(x.GetElement(j), scalar, inetax.GetElement(j), inxix.GetElement(j), &(result->GetElement(j)));
+            }
+        }
+        
+        return *result;
     };
 
 	Vector &MultiManifolds::VectorLinearCombination(const Variable &x, realdp scalar1, const Vector &etax, realdp scalar2, const Vector &xix, Vector *result) const
 	{
-		return Manifold::VectorLinearCombination(x, scalar1, etax, scalar2, xix, result);
+        /*the intrinsic representation of a quotient of a product is not a product of elements*/
+        if(xix.Getnumofelements() == 0)
+        {
+            return Manifold::VectorLinearCombination(x, scalar1, etax, scalar2, xix, result);
+        }
+
+        /*etax or xix and result may be the same. Store them first then new memory for result. Otherwise, the memory in them is also changed.*/
+        Vector inetax = etax, inxix = xix;
+        *result = inxix;
+        result->NewMemoryOnWrite();
+        
+        for(integer i = 0; i < numoftypes; i++)
+        {
+            for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
+            {
+                manifolds[i]->VectorLinearCombination(x.GetElement(j), scalar1, inetax.GetElement(j), scalar2, inxix.GetElement(j), &(result->GetElement(j)));
+            }
+        }
+        
+        return *result;
 	};
 
 	Vector &MultiManifolds::Projection(const Variable &x, const Vector &etax, Vector *result) const
-- 
2.43.0


From 67f1eaee9d8f79ecb1f4645f33a626b9aa8152bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 45/63] fix: an operator applied on a product leaves extrinsic
 components complete

---
 Manifolds/MultiManifolds.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 50dfb96..99261c3 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -141,7 +141,23 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::LinearOPEEta(const Variable &x, const LinearOPE &Hx, const Vector &etax, Vector *result) const
 	{
-        return Manifold::LinearOPEEta(x, Hx, etax, result);
+        Manifold::LinearOPEEta(x, Hx, etax, result);
+        /*An extrinsic component may represent tangent vectors by more than the entries (see FixedRankE). The operator only knows the entries.*/
+        if(result->Getnumofelements() > 0)
+        {
+            result->CopyOnWrite();
+            for(integer i = 0; i < numoftypes; i++)
+            {
+                if(! manifolds[i]->GetIsIntrinsic())
+                {
+                    for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
+                    {
+                        manifolds[i]->ExtrProjection(x.GetElement(j), result->GetElement(j), &(result->GetElement(j)));
+                    }
+                }
+            }
+        }
+        return *result;
 	};
 
     Vector &MultiManifolds::ScalarTimesVector(const Variable &x, const realdp &scalar, const Vector &etax, Vector *result) const
-- 
2.43.0


From 2300887837769b7e01853e94135a2565e1213cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 46/63] fix: conversions of the Euclidean gradient and Hessian
 on (C)FixedRankQ2F can be called in place

---
 Manifolds/CFixedRankQ2F.cpp | 8 ++++++--
 Manifolds/FixedRankQ2F.cpp  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 7835764..11ada15 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -535,6 +535,9 @@ namespace ROPTLIB{
             Sharedegf.CopyOnWrite();
             x.AddToFields("EGrad", Sharedegf);
         }
+        /*egf and result may be the same. Store egf first then new memory for result. Otherwise, the memory in egf is also changed.*/
+        Vector inegf = egf;
+        Vector egfG = inegf.GetElement(0), egfH = inegf.GetElement(1);
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
@@ -551,7 +554,6 @@ namespace ROPTLIB{
             x.GetElement(1).AddToFields("_L", tmp.Field("_L"));
         }
         
-        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1);
         Vector LG = x.GetElement(0).Field("_L"), LH = x.GetElement(1).Field("_L");
         Vector tmpG = egfG.GetTranspose().TriangleLinSol(LH, GLOBAL::N).TriangleLinSol(LH, GLOBAL::C).GetTranspose();
         realdpcomplex coef = {0.5, 0};
@@ -569,7 +571,9 @@ namespace ROPTLIB{
         Vector dG = etax.GetElement(0), dH = etax.GetElement(1);
         Vector EGrad = x.Field("EGrad");
         Vector EG_dG = EGrad.GetElement(0), EG_dH = EGrad.GetElement(1);
-        Vector EH_dG = exix.GetElement(0), EH_dH = exix.GetElement(1);
+        /*exix and result may be the same. Store exix first then new memory for result. Otherwise, the memory in exix is also changed.*/
+        Vector inexix = exix;
+        Vector EH_dG = inexix.GetElement(0), EH_dH = inexix.GetElement(1);
 
         result->NewMemoryOnWrite();
         
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 9c6b456..5ddd8c3 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -508,6 +508,9 @@ namespace ROPTLIB{
             x.AddToFields("EGrad", Sharedegf);
         }
         
+        /*egf and result may be the same. Store egf first then new memory for result. Otherwise, the memory in egf is also changed.*/
+        Vector inegf = egf;
+        Vector egfG = inegf.GetElement(0), egfH = inegf.GetElement(1);
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
@@ -524,7 +527,6 @@ namespace ROPTLIB{
             x.GetElement(1).AddToFields("_L", tmp.Field("_L"));
         }
         
-        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1);
         Vector LG = x.GetElement(0).Field("_L"), LH = x.GetElement(1).Field("_L");
         
         Vector tmpG = egfG.GetTranspose().TriangleLinSol(LH, GLOBAL::N).TriangleLinSol(LH, GLOBAL::T).GetTranspose();
@@ -542,7 +544,9 @@ namespace ROPTLIB{
         Vector dG = etax.GetElement(0), dH = etax.GetElement(1);
         Vector EGrad = x.Field("EGrad");
         Vector EG_dG = EGrad.GetElement(0), EG_dH = EGrad.GetElement(1);
-        Vector EH_dG = exix.GetElement(0), EH_dH = exix.GetElement(1);
+        /*exix and result may be the same. Store exix first then new memory for result. Otherwise, the memory in exix is also changed.*/
+        Vector inexix = exix;
+        Vector EH_dG = inexix.GetElement(0), EH_dH = inexix.GetElement(1);
         
         result->NewMemoryOnWrite();
         
-- 
2.43.0


From f927adfa4e0fd59349672ed7b08d933145c57a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 47/63] fix: operations of Sphere and SphereTx combine the
 operand that may be the result in the right place

---
 Manifolds/Sphere.cpp   | 8 +++++---
 Manifolds/SphereTx.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index a528d33..c4a6e52 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -70,13 +70,15 @@ namespace ROPTLIB{
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
-		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
-			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, result);
+		VectorLinearCombination(x, (xiytetax * cosnormetax / normetax
+			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, sinnormetax / normetax, xiy, result);
 		return Projection(x, *result, result);
 	};
 
 	Vector &Sphere::ExpDiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
@@ -86,7 +88,7 @@ namespace ROPTLIB{
 
         if (IsEtaXiSameDir && HasHHR)
         {
-            realdp nxix = std::sqrt(Metric(x, xix, xix));
+            realdp nxix = std::sqrt(Metric(x, inxix, inxix));
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index a7b9da6..b3e723a 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -95,13 +95,15 @@ namespace ROPTLIB{
 
 	Vector &SphereTx::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
 		if (IsEtaXiSameDir)
 		{
             VectorTransport(x, etax, y, xix, result);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
+                realdp nxix = std::sqrt(Metric(x, inxix, inxix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
@@ -166,7 +168,7 @@ namespace ROPTLIB{
 	{
         Vector EGrad = x.Field("EGrad");
         
-        mani->VectorLinearCombination(root, 1, exix, - mani->Metric(root, EGrad, x), etax, result);
+        mani->VectorLinearCombination(root, - mani->Metric(root, EGrad, x), etax, 1, exix, result);
         return Projection(x, *result, result);
 	};
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 379da847934b0eb713f177b9dfcc9beba1af2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 48/63] fix: differentiated retractions and locking transports
 keep an operand that is also the result

---
 Manifolds/CStiefel.cpp       |  6 ++++--
 Manifolds/FixedRankE.cpp     | 11 ++++++-----
 Manifolds/Manifold.cpp       |  8 ++++++--
 Manifolds/MultiManifolds.cpp |  4 ++--
 Manifolds/Stiefel.cpp        | 12 ++++++++----
 5 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 61b7359..36ba48a 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -543,6 +543,8 @@ namespace ROPTLIB{
 
 	Vector &CStiefel::DiffPolarRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
 		if (IsEtaXiSameDir)
 		{
             Vector etaxtmp(EMPTYEXTR);
@@ -550,7 +552,7 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp alpha = sqrt(Metric(x, inxix, inxix) / Metric(x, etax, etax));
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
@@ -567,7 +569,7 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
+                realdp nxix = std::sqrt(Metric(x, inxix, inxix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index c515165..5964560 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -199,6 +199,8 @@ namespace ROPTLIB{
 
     Vector &FixedRankE::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
     {
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
         if(IsEtaXiSameDir)
         {
             Vector Ux = x.Field("U"), dUeta = etax.Field("dU"), Uy = y.Field("U"), dUxix = xix.Field("dU");
@@ -219,14 +221,14 @@ namespace ROPTLIB{
             tmp2 = Vy_S.GetDiagTimesM(tmp2, GLOBAL::R) * Vy_Vt;
             Vector result2 = (tmp2 - Vy * (tmp2.GetTranspose() * tmp2)) * alpha2;
             
-            *result = Uy * Dy * result2.GetTranspose() + Uy * xix.Field("dD") * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
+            *result = Uy * Dy * result2.GetTranspose() + Uy * inxix.Field("dD") * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
             result->AddToFields("dU", result1);
-            result->AddToFields("dD", xix.Field("dD"));
+            result->AddToFields("dD", inxix.Field("dD"));
             result->AddToFields("dV", result2);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
+                realdp nxix = std::sqrt(Metric(x, inxix, inxix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
@@ -276,7 +278,6 @@ namespace ROPTLIB{
 
 	Vector &FixedRankE::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result)  const
 	{
-        Projection(x, egf, result);
         if(prob->GetUseHess())
         {
             /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
@@ -286,7 +287,7 @@ namespace ROPTLIB{
             EGrad.CopyOnWrite();
             x.AddToFields("EGrad", EGrad);
         }
-        return *result;
+        return Projection(x, egf, result);
 	};
 
 	Vector &FixedRankE::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 7f2125b..3bed4a4 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -129,6 +129,8 @@ namespace ROPTLIB{
 
 	Vector &Manifold::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
         #ifdef CHECKMANIFOLDOVERRIDDEN
                 printf("Manifold::DiffRetraction has not been overridden!\n");
         #endif
@@ -139,7 +141,7 @@ namespace ROPTLIB{
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
             betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
             betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
@@ -724,12 +726,14 @@ namespace ROPTLIB{
 
     Vector &Manifold::LCVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
         if (!etax.FieldsExist("tau1tau2"))
         {
             Obtainnu1nu2forLC(x, etax, y);
         }
         HasHHR = false; VectorTransport(x, etax, y, xix, result); HasHHR = true;
-        ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(y, *result, *result)), *result, result);
+        ScalarTimesVector(y, sqrt(Metric(x, inxix, inxix) / Metric(y, *result, *result)), *result, result);
         
         Element tau1tau2 = etax.Field("tau1tau2");
         const realdp *tau1tau2ptr = tau1tau2.ObtainReadData();
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 99261c3..358b863 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -392,7 +392,7 @@ namespace ROPTLIB{
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
             betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
             betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
@@ -555,7 +555,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                egf.CopyFieldsTo(egf.GetElement(j));
+                inegf.CopyFieldsTo(inegf.GetElement(j));
                 manifolds[i]->EucGradToGrad(x.GetElement(j), inegf.GetElement(j), prob, &(result->GetElement(j)));
             }
         }
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 67684fb..4a594e7 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -597,6 +597,8 @@ namespace ROPTLIB{
 
 	Vector &Stiefel::DiffPolarRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
 		if (IsEtaXiSameDir)
 		{
             Vector etaxtmp(EMPTYEXTR);
@@ -604,7 +606,7 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp alpha = sqrt(Metric(x, inxix, inxix) / Metric(x, etax, etax));
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
@@ -621,7 +623,7 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
+                realdp nxix = std::sqrt(Metric(x, inxix, inxix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
@@ -815,6 +817,8 @@ namespace ROPTLIB{
 
 	Vector &Stiefel::DiffCayleyRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        /*xix and result may be the same. xix is needed after result has been computed.*/
+        Vector inxix = xix;
 		if (IsEtaXiSameDir)
 		{
 			const realdp *Mk2ptr = x.Field("Mk2").ObtainReadData();
@@ -856,13 +860,13 @@ namespace ROPTLIB{
             else
                 *result = exresult;
             
-			ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)), *result, result);
+			ScalarTimesVector(y, sqrt(Metric(x, inxix, inxix) / Metric(x, etax, etax)), *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
-                realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
+                realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
                 betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
                 betaptr[1] = Metric(x, etax, etax);
                 betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
-- 
2.43.0


From 5d8d22960ffc6836e10a3717106c74732404849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 49/63] fix: the Hessian of the complex Stiefel manifold under
 the canonical metric uses a complex workspace

---
 Manifolds/CStiefel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 36ba48a..abcc555 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -311,7 +311,7 @@ namespace ROPTLIB{
 
         /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2
         - 0.5 * ( etax * tmp2 - x * (x.GetTranspose() * etax) * tmp2 )*/
-        Vector tmp3(p, p);
+        Vector tmp3(p, p, "complex");
         *result = exix;
         tmp3.AlphaABaddBetaThis(1, exix, GLOBAL::C, x, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x)*/
-- 
2.43.0


From 1f1279e8d0a0ebc8d7442e7da05e880b3bf22605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 50/63] fix: differentiated retractions measure their result at
 the point where it lives

---
 Manifolds/Manifold.cpp       | 4 ++--
 Manifolds/MultiManifolds.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 3bed4a4..f5e18b9 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -142,9 +142,9 @@ namespace ROPTLIB{
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 358b863..79ee78e 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -393,9 +393,9 @@ namespace ROPTLIB{
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
-- 
2.43.0


From 4155dfce7991c01c8639ba7c0585f30aef190321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 51/63] fix: gradient sampling does not store the transported
 gradient in the direction the transport still needs

---
 Solvers/RGS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Solvers/RGS.cpp b/Solvers/RGS.cpp
index e93ddb5..56187ca 100644
--- a/Solvers/RGS.cpp
+++ b/Solvers/RGS.cpp
@@ -51,7 +51,8 @@ namespace ROPTLIB{
 			Mani->Retraction(x1, gfs[i], &Xs[i]); nR++;
 			Prob->f(Xs[i]); nf++;
             Prob->Grad(Xs[i], &gfXsi);
-            Mani->InverseVectorTransport(x1, gfs[i], Xs[i], gfXsi, &gfs[i]); ng++; nVp++;
+            Mani->InverseVectorTransport(x1, gfs[i], Xs[i], gfXsi, &gfXsi); ng++; nVp++; /*only the transported vector and the result can be the same*/
+            gfs[i] = gfXsi;
 		}
         
 		ndir1 = sqrt(MinPNormConHull(Mani, x1, gfs, Lengthgfs, nullptr, nullptr, minPv));
-- 
2.43.0


From 7380a14c39f11b7414c17c4b929c38e33283097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 52/63] fix: operations of a product in extrinsic
 representation apply the extrinsic operations of its components

---
 Manifolds/MultiManifolds.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 79ee78e..56cbbc0 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -131,10 +131,13 @@ namespace ROPTLIB{
         realdp result = 0;
         for(integer i = 0; i < numoftypes; i++)
         {
+            bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+            manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 result += manifolds[i]->Metric(x.GetElement(j), etax.GetElement(j), xix.GetElement(j));
             }
+            manifolds[i]->SetIsIntrApproach(isintrinsic);
         }
         return result;
 	};
@@ -240,10 +243,13 @@ namespace ROPTLIB{
         
         for(integer i = 0; i < numoftypes; i++)
         {
+            bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+            manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->Projection(x.GetElement(j), inetax.GetElement(j), &(result->GetElement(j)));
             }
+            manifolds[i]->SetIsIntrApproach(isintrinsic);
         }
         
         return *result;
@@ -333,10 +339,13 @@ namespace ROPTLIB{
         
         for (integer i = 0; i < numoftypes; i++)
         {
+            bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+            manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->coTangentVector(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxiy.GetElement(j), &(result->GetElement(j)));
             }
+            manifolds[i]->SetIsIntrApproach(isintrinsic);
         }
         return *result;
 	};
@@ -356,6 +365,8 @@ namespace ROPTLIB{
 		realdp numerator = 0, denominator = 0, tmp;
 		for (integer i = 0; i < numoftypes; i++)
 		{
+			bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+			manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
 				if (etax.GetElement(j).FieldsExist("beta"))
@@ -371,6 +382,7 @@ namespace ROPTLIB{
 					denominator += tmp;
 				}
 			}
+			manifolds[i]->SetIsIntrApproach(isintrinsic);
 		}
 		return sqrt(numerator / denominator);
 	};
@@ -382,10 +394,13 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+            manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->DiffRetraction(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxix.GetElement(j), &(result->GetElement(j)), IsEtaXiSameDir);
             }
+            manifolds[i]->SetIsIntrApproach(isintrinsic);
         }
         
         if (IsEtaXiSameDir && HasHHR)
@@ -431,10 +446,13 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+            manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->VectorTransport(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxix.GetElement(j), &(result->GetElement(j)));
             }
+            manifolds[i]->SetIsIntrApproach(isintrinsic);
         }
         return *result;
 	};
@@ -449,10 +467,13 @@ namespace ROPTLIB{
         result->NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+            manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->InverseVectorTransport(x.GetElement(j), etax.GetElement(j), y.GetElement(j), inxiy.GetElement(j), &(result->GetElement(j)));
             }
+            manifolds[i]->SetIsIntrApproach(isintrinsic);
         }
         return *result;
 	};
@@ -467,6 +488,8 @@ namespace ROPTLIB{
 		integer start, end = 0;
 		for (integer i = 0; i < numoftypes; i++)
 		{
+			bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+			manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
 				start = end;
@@ -474,6 +497,7 @@ namespace ROPTLIB{
 				manifolds[i]->HInvTran(x.GetElement(j), etax.GetElement(j), y.GetElement(j), *result, start, end, result);
 				manifolds[i]->TranH(x.GetElement(j), etax.GetElement(j), y.GetElement(j), *result, start, end, result);
 			}
+			manifolds[i]->SetIsIntrApproach(isintrinsic);
 		}
         
         return *result;
@@ -485,10 +509,13 @@ namespace ROPTLIB{
         xixflat.NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
         {
+            bool isintrinsic = manifolds[i]->GetIsIntrinsic();
+            manifolds[i]->SetIsIntrApproach(isintrinsic && IsIntrApproach);
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
                 manifolds[i]->ObtainEtaxFlat(x.GetElement(j), xix.GetElement(j), &(xixflat.GetElement(j)));
             }
+            manifolds[i]->SetIsIntrApproach(isintrinsic);
         }
         return Manifold::HaddScaledRank1OPE(x, Hx, scalar, etax, xixflat, result);
 	};
-- 
2.43.0


From 761d6a794d4c1d9684db88a9ce32cdc89059baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 53/63] fix: the time limit also ends runs whose iterations are
 rejected or whose radius is refined

---
 Solvers/AManPG.cpp          | 1 +
 Solvers/ManPG.cpp           | 1 +
 Solvers/SolversNSMSubLS.cpp | 2 ++
 Solvers/SolversSMTR.cpp     | 1 +
 4 files changed, 5 insertions(+)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index edad4e3..71d7367 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -160,6 +160,7 @@ namespace ROPTLIB{
                     SMtol = ((SMtol * 0.01 > 1e-24) ? SMtol * 0.01 : 1e-24);
                     SMlambda = ((SMlambda * 0.1 > 1e-10) ? SMlambda * 0.1 : 1e-10);
                     LSstatus = LSPG_SUCCESS;
+                    isstop = isstop || static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound;
                     continue;
                 }
                 
diff --git a/Solvers/ManPG.cpp b/Solvers/ManPG.cpp
index 589eea5..47d2111 100644
--- a/Solvers/ManPG.cpp
+++ b/Solvers/ManPG.cpp
@@ -84,6 +84,7 @@ namespace ROPTLIB{
                 SMtol = ((SMtol * 0.01 > 1e-24) ? SMtol * 0.01 : 1e-24);
                 SMlambda = ((SMlambda * 0.1 > 1e-10) ? SMlambda * 0.1 : 1e-10);
                 LSstatus = LSPG_SUCCESS;
+                isstop = isstop || static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound;
                 continue;
             }
             
diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 4a16829..e096afd 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -47,6 +47,8 @@ namespace ROPTLIB{
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
 			isstop = IsStopped();
+			if (iter >= Min_Iteration && static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound) /*The time is over even if Eps has not reached Min_Eps*/
+				break;
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
 				Eps *= Theta_eps;
diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index ff3ff9d..027b369 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -99,6 +99,7 @@ namespace ROPTLIB{
 			else
 			{
 				iter++;
+				isstop = isstop || static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound; /*a rejected candidate leaves the criterion unchanged, but not the time*/
 				if (Verbose >= ITERRESULT && iter % OutputGap == 0)
 				{
 					printf("X_{%d} WAS REJECTED.\n", iter);
-- 
2.43.0


From 7a68a62cb8b8cb69d2ce90a82e49a635e940bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:03 +0000
Subject: [PATCH 54/63] fix: the Wolfe line search reduces the step size if the
 function value at the trial point is not a number

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index d9934f5..a8732b6 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -807,7 +807,7 @@ namespace ROPTLIB{
 				}
 				prestepsize = stepsize;
 				f2pre = f2;
-				stepsize = (steptemp <= static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
+				stepsize = (steptemp > static_cast<realdp> (1e-2) * stepsize) ? steptemp : static_cast<realdp> (1e-2) * stepsize; /*also reduces if steptemp is not a number*/
 			}
 		}
 	};
-- 
2.43.0


From d813e6216b6f9ead95b19fe4ede179f944297c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:03 +0000
Subject: [PATCH 55/63] fix: bisection in ZoomLP is bounded also if the trial
 point never decreases the function sufficiently

---
 Solvers/SolversNSMSubLS.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index e096afd..cb59514 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -386,6 +386,14 @@ namespace ROPTLIB{
             if (f2 - f1 - LS_alpha * initialslope * stepsize > 0)
             {
                 b = stepsize;
+                if (times >= 60) /*a and b may be neighbouring floating point numbers, so that their midpoint is always b*/
+                {
+                    stepsize = a;
+                    f2 = h();
+                    dh();
+                    LSstatus = LSNSM_NOCURVATURE;
+                    break;
+                }
             }
             else
             {
-- 
2.43.0


From 7c2b9015818b41520fa93ca24680dd42946850e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:51 +0000
Subject: [PATCH 56/63] fix: the subgradient methods take a step when neither
 Eps nor Del can be reduced further

---
 Solvers/SolversNSMSubLS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index cb59514..53861cf 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -51,6 +51,7 @@ namespace ROPTLIB{
 				break;
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
+				const realdp epspre = Eps, delpre = Del;
 				Eps *= Theta_eps;
 				Eps = (Eps > Min_Eps) ? Eps : Min_Eps;
 				if (Eps > Min_Eps)
@@ -66,7 +67,8 @@ namespace ROPTLIB{
 				}
 				if (Verbose >= ITERRESULT)
 					printf("Shinking Epsilon and Delta to %g and %g respectively, ndir1:%g.\n", Eps, Del, ndir1);
-				continue;
+				if (Eps < epspre || Del < delpre) /*otherwise the same direction would be found again and again*/
+					continue;
 			}
 
 			initialslope = Mani->Metric(x1, minPv, eta1);
-- 
2.43.0


From 746f35e424e1422f091af6801b4b9189ecd55fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:57 +0000
Subject: [PATCH 57/63] fix: the line search of the subgradient methods
 evaluates the step size it reports at the maximum

---
 Solvers/SolversNSMSubLS.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 53861cf..73b0159 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -349,11 +349,10 @@ namespace ROPTLIB{
                 break;
             } else
             {
+                if (stepsize >= Maxstepsize)
+                    break;
                 prestepsize = stepsize;
                 stepsize = (2 * stepsize < Maxstepsize) ? 2 * stepsize : Maxstepsize;
-
-                if (stepsize == Maxstepsize)
-                    break;
             }
         }
         if (stepsize <= Minstepsize)
-- 
2.43.0


From 44d118fdf2f8a69a70708d2ac4bbd2f745c4aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:57 +0000
Subject: [PATCH 58/63] fix: the Wolfe line search does not report success
 before the curvature condition holds

---
 Solvers/SolversSMLS.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index a8732b6..2921552 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -706,7 +706,6 @@ namespace ROPTLIB{
 				newslope = dh();
 				if (newslope < LS_beta * initialslope)
 				{
-					times = 0;
 					while (f2 <= f1 + LS_alpha * stepsize * initialslope && newslope < LS_beta * initialslope && stepsize < Maxstepsize)
 					{
 						prestepsize = stepsize;
@@ -715,9 +714,6 @@ namespace ROPTLIB{
 						f2 = h();
 						if (f2 <= f1 + LS_alpha * stepsize * initialslope)
 							newslope = dh();
-						times++;
-						if (times > 10)
-							break;
 					}
 					if (stepsize >= Maxstepsize)
 					{
-- 
2.43.0


From 40930acc7519b6ee048d9c3577ca9fe2b92b5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 59/63] fix: RTRSR1 scales B at the second update, zeta must
 use the scaled B for the secant equation to hold

---
 Solvers/RTRSR1.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index d6b017f..fa302f4 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -82,10 +82,14 @@ namespace ROPTLIB{
         Mani->ScalarVectorAddVector(x1, -1, gf1, y, &y);
         s = eta2;
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
-        denorminator = Mani->Metric(x1, s, zeta);
-        
+
         if (iter == 1)
-            B.ScaledIdOPE(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y));
+        { /*B is replaced, so zeta = y - B s has to be computed with the new B*/
+            realdp scale = Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y);
+            B.ScaledIdOPE(scale);
+            Mani->ScalarVectorAddVector(x1, -scale, s, y, &zeta);
+        }
+        denorminator = Mani->Metric(x1, s, zeta);
         
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
-- 
2.43.0


From 4bab4939e1094b8285b7c63836cf23cf5daa0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 60/63] fix: RCG uses the preconditioned gradient in the new
 direction as in sigma and in the restart

---
 Solvers/RCG.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index cffa8b7..23f3b9e 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -141,9 +141,9 @@ namespace ROPTLIB{
         }
         Pgf1 = Pgf2;
         if(sigma == 0)
-            Mani->ScalarTimesVector(x2, -1, gf2, &eta1);
+            Mani->ScalarTimesVector(x2, -1, Pgf2, &eta1);
         else
-            Mani->VectorLinearCombination(x2, -1, gf2, sigma, Teta1, &eta1);
+            Mani->VectorLinearCombination(x2, -1, Pgf2, sigma, Teta1, &eta1);
 	};
 
 	void RCG::SetParams(PARAMSMAP params)
-- 
2.43.0


From 90e6d3f3fc5fe7aa75b3a50942d65a621fdbab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 61/63] fix: RNewton keeps the step of a first inner iteration
 that converged

---
 Solvers/RNewton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 858b4a8..4a15176 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -165,7 +165,7 @@ namespace ROPTLIB{
             Mani->ScalarVectorAddVector(x1, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
 		}
 		innerIter = j;
-		if (j == 0)
+		if (j == 0 && tCGLSSMstatus != LSSM_LCON && tCGLSSMstatus != LSSM_SCON) /* no step was completed */
             eta1 = delta;
 	};
 
-- 
2.43.0


From dacb3317e046042e7c7e00820f13084e5b54cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:19 +0000
Subject: [PATCH 62/63] fix: give the defaults the solvers really have in the
 headers

---
 Solvers/RNewton.h         | 2 +-
 Solvers/Solvers.h         | 2 +-
 Solvers/SolversNSMPGLS.h  | 4 ++--
 Solvers/SolversNSMSubLS.h | 2 +-
 Solvers/SolversSMLS.h     | 4 ++--
 Solvers/SolversSMTR.h     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Solvers/RNewton.h b/Solvers/RNewton.h
index 93de9ed..879eef4 100644
--- a/Solvers/RNewton.h
+++ b/Solvers/RNewton.h
@@ -59,7 +59,7 @@ namespace ROPTLIB{
 		integer Min_Inner_Iter;
 
 		/*the theta and kappa are used to check whether stopping criterion of solving local linear system is satisfied or not
-		Default: theta 0.1, kappa 0.9*/
+		Default: theta 1, kappa 0.1*/
 		realdp theta;
 		realdp kappa;
 	protected:
diff --git a/Solvers/Solvers.h b/Solvers/Solvers.h
index e2c5204..b1571b6 100644
--- a/Solvers/Solvers.h
+++ b/Solvers/Solvers.h
@@ -99,7 +99,7 @@ namespace ROPTLIB{
 		virtual ~Solvers(void) = 0;
 
 		/*If a value is less than the Tolerance, then stop the algorithm. The value is specified by the member variable "Stop_Criterion".
-		Default: 10^{-6}*/
+		Default: 10^{-6} (10^{-4} for ManPG and AManPG)*/
 		realdp Tolerance;
 
 		/*Upper bound for running the algorithm. If excuable time of the algorithm is more the the TimeBound, then the algorithm
diff --git a/Solvers/SolversNSMPGLS.h b/Solvers/SolversNSMPGLS.h
index 67a5204..a10948b 100644
--- a/Solvers/SolversNSMPGLS.h
+++ b/Solvers/SolversNSMPGLS.h
@@ -44,11 +44,11 @@ namespace ROPTLIB{
         virtual void SetParams(PARAMSMAP params);
         
         /* Fix or adapt the coefficient in Proximal operator
-        Default: LSPG_ADALIPSCHITZ */
+        Default: LSPG_ADALIPSCHITZ for ManPG, LSPG_REGULAR for AManPG */
         RPGLSVariant Variant;
         
         /*The shrinking parameter in the Armijo-Goldstein condition
-        Default: 0.1 */
+        Default: 0.5 */
         realdp LS_ratio;
         
         /*the coefficient of the Armijo condition
diff --git a/Solvers/SolversNSMSubLS.h b/Solvers/SolversNSMSubLS.h
index f3ff877..63fe669 100644
--- a/Solvers/SolversNSMSubLS.h
+++ b/Solvers/SolversNSMSubLS.h
@@ -74,7 +74,7 @@ namespace ROPTLIB{
         realdp LS_beta;
         
         /*the minimum stepsize allowed in the linesearch algorithm
-        Default: machine eps*/
+        Default: 2 * 10^{-16}*/
         realdp Minstepsize;
 
         /*the maximum stepsize allowed in the linesearch algorithm
diff --git a/Solvers/SolversSMLS.h b/Solvers/SolversSMLS.h
index a350493..f1d674e 100644
--- a/Solvers/SolversSMLS.h
+++ b/Solvers/SolversSMLS.h
@@ -94,7 +94,7 @@ namespace ROPTLIB{
 		realdp Minstepsize;
 
 		/*the maximum stepsize allowed in the linesearch algorithm
-		Default: 1000 */
+		Default: 10^{10} */
 		realdp Maxstepsize;
 
 		/*The coefficient in the Armijo-Goldstein condition
@@ -112,7 +112,7 @@ namespace ROPTLIB{
 		/*When the iterate is close to the minimizer (see the annotation of Accuracy), then fixed
 		the stepsize to the Finalstepsize if Finalstepsize > 0. If Finalstepsize <= 0, then the proposed
 		initial stepsize is used as the accepted stepsize.
-		Default: 1*/
+		Default: -1*/
 		realdp Finalstepsize;
         
         /*the number of previous bb1 stepsize. Used in ABB_min stepsize. See details in [SRTZ2017]
diff --git a/Solvers/SolversSMTR.h b/Solvers/SolversSMTR.h
index c7dcb42..ab1574b 100644
--- a/Solvers/SolversSMTR.h
+++ b/Solvers/SolversSMTR.h
@@ -60,7 +60,7 @@ namespace ROPTLIB{
 		realdp minimum_Delta;
 
 		/*Allowed maximum radius of the trust region.
-		Default: 1000*/
+		Default: 10000*/
 		realdp maximum_Delta;
 
 		/*if useRand is true, then set r to be Hess f(x1)[eta1] + grad f(x1), otherwise, set r to be grad f(x1).
-- 
2.43.0


From 353a6c35cc41a759b4f996093504ac3462ee8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:55 +0000
Subject: [PATCH 63/63] fix: RNewton reported the validity of kappa beside
 useRand

---
 Solvers/RNewton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 4a15176..1d4c483 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -52,6 +52,7 @@ namespace ROPTLIB{
 		printf("theta         :%15g[%s],\t", theta, status);
 		status = (kappa > 0 && kappa < 1) ? YES : NO;
 		printf("kappa         :%15g[%s],\n", kappa, status);
+		status = YES;
 		printf("useRand       :%15d[%s],\n", useRand, status);
 	};
 
-- 
2.43.0

