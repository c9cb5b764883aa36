From 3bab6b68614b25127df8699dd60468091580c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 01/17] fix: in-place LatticeHalfFermion = LatticeColorMatrix *
 LatticeHalfFermion

The specialised evaluate wrote each destination component while the same
half fermion was still being read, so h = u*h gave wrong results.
---
 .../qdp_scalarsite_generic_linalg_wrapper.h        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
index c1da599..44b24a3 100644
--- a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
+++ b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
@@ -44,12 +44,15 @@ void ordered_linalg_evaluate_userfunc(int lo, int hi, int myId, ordered_linalg_u
    // Ordered Way - loop through sites and save a table lookup
    for(int i=low; i < high; i++) { 
       
+     // Use a temporary since d and r may be the same object
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> tmp;
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      tmp.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      tmp.elem(1));
+     d.elem(i) = tmp;
    }
   
 }
@@ -87,12 +90,15 @@ void unordered_linalg_evaluate_userfunc(int lo, int hi, int myId,  unordered_lin
    for(int j=lo; j < hi; j++) { 
      int i = tab[j];
       
+     // Use a temporary since d and r may be the same object
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> tmp;
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      tmp.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      tmp.elem(1));
+     d.elem(i) = tmp;
    } 
 }
 
-- 
2.43.0


From 76471872334cb15b63ad8a9fe83c4ae6311e7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 02/17] fix: sumMulti of an array of scalars or lattices
 returns the type it builds

The return type named FnSumMulti (itself an array type) while the body builds a
multi2d of FnSum, so the function could not be instantiated.
---
 include/qdp_scalar_specific.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..e36e658 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -838,7 +838,7 @@ sumMulti(const QDPExpr<RHS,OLattice<T> >& s1, const Set& ss)
  * slices
  */
 template<class T>
-multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -873,7 +873,7 @@ sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
  * version is fine.
  */
 template<class T>
-multi2d<typename UnaryReturn<OLattice<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OLattice<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
-- 
2.43.0


From 5869e6669619136788150be82901f6c27e53dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 03/17] fix: norm2 and inner products of arrays of scalars bind
 const references

norm2, innerProduct and innerProductReal of a const multi1d<OScalar> bound its
elements to non-const references and could not be instantiated.
---
 include/qdp_scalar_specific.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index e36e658..98fe90f 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -937,7 +937,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
@@ -1059,8 +1059,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
   }
 
@@ -1180,8 +1180,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
   }
 
-- 
2.43.0


From abdb93a566089c8c710632f339d5f2a61b4f39d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 04/17] fix: scalar assigned to an owning OSubLattice sets
 every subset site, OSubScalar flag initialised

evaluate_F for a scalar right hand side wrote only the first element of the
compact storage (and one element past an empty one).  OSubScalar left
ownsMemory uninitialised: depending on its value an assignment was lost in a
temporary.
---
 include/qdp_outersubtype.h |  5 +++--
 include/qdp_qdpsubtype.h   | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/include/qdp_outersubtype.h b/include/qdp_outersubtype.h
index c3d5e6b..d15f985 100644
--- a/include/qdp_outersubtype.h
+++ b/include/qdp_outersubtype.h
@@ -22,8 +22,9 @@ class OSubScalar: public QDPSubType<T, OScalar<T> >
 
 public:
   //OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(ss) {}
-  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), s(&(const_cast<Subset&>(ss))) {}
-  OSubScalar(const OSubScalar& a): F(a.F), s(a.s) {}
+  // Assignments go straight to the element F points at (never via a temporary OScalar)
+  OSubScalar(OScalar<T>& a, const Subset& ss): F(a.getF()), ownsMemory(true), s(&(const_cast<Subset&>(ss))) {}
+  OSubScalar(const OSubScalar& a): F(a.F), ownsMemory(a.ownsMemory), s(a.s) {}
   ~OSubScalar() {}
 
   //---------------------------------------------------------
diff --git a/include/qdp_qdpsubtype.h b/include/qdp_qdpsubtype.h
index b41b9a9..677b079 100644
--- a/include/qdp_qdpsubtype.h
+++ b/include/qdp_qdpsubtype.h
@@ -10,6 +10,13 @@
 
 namespace QDP {
 
+// Defined with the outer grid types and in the architecture specific files
+template<class T, class T1, class Op, class RHS>
+void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs, const Subset& s);
+
+template<class T, class T1, class Op, class RHS>
+void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OLattice<T1> >& rhs, const Subset& s);
+
 
 //! QDPSubType - type representing a field living on a subset
 /*! 
@@ -486,6 +493,35 @@ public:
   }
 
 private:
+  //! Number of elements behind getF(): one per subset site for a lattice, a single one for a scalar
+  static int numElem(const OScalar<T>*, const Subset&) {return 1;}
+  static int numElem(const OLattice<T>*, const Subset& s) {return s.numSiteTable();}
+
+  //! dest Op OScalar(Expression) for every element held
+  template<class T1, class Op, class RHS>
+  static inline
+  void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OScalar<T1> >& rhs, const Subset& s)
+  {
+    const int n = numElem(static_cast<const C*>(0), s);
+    for(int j=0; j < n; ++j)
+      QDP::evaluate_F(dest + j, op, rhs, s);
+  }
+
+  template<class T1, class Op, class RHS>
+  static inline
+  void evaluate_F(T* dest, const Op& op, const QDPExpr<RHS,OLattice<T1> >& rhs, const Subset& s)
+  {
+    QDP::evaluate_F(dest, op, rhs, s);
+  }
+
+  static inline
+  void zero_rep_F(T* dest, const Subset& s)
+  {
+    const int n = numElem(static_cast<const C*>(0), s);
+    for(int j=0; j < n; ++j)
+      zero_rep(dest[j]);
+  }
+
   //! Hide default operator=
   inline
   C& operator=(const QDPSubType& rhs) {}
-- 
2.43.0


From c7b8ff522d4387c0bc53653bd8f16194ca16414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 05/17] fix: multiNd::operator() uses the strides of the
 last-index-fastest layout, as operator[] does

---
 include/qdp_multi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..8ac3a50 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1127,7 +1127,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return const ref to an element
@@ -1139,7 +1139,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return ref to an element
@@ -1151,7 +1151,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return const ref to an element
@@ -1163,7 +1163,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return ref to an element
@@ -1175,7 +1175,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return const ref to an element
@@ -1187,7 +1187,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return ref to an element via indices packed in a multi1d array
-- 
2.43.0


From 46de0475367b6643b2e6a06ef4989e9d8e0eae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 06/17] fix: self-assignment and sub-array assignment of
 multi2d..multi5d and multiNd keep the elements

---
 include/qdp_multi.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 8ac3a50..362b178 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -680,7 +680,8 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
-      resize(s1.size2(), s1.size1());   // always resize
+      if (n2 != s1.n2 || n1 != s1.n1)   // a simple check avoids resizing always
+	resize(s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -779,7 +780,8 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
-      resize(s1.size3(), s1.size2(), s1.size1());
+      if (n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -874,7 +876,8 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
-      resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      if (n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -971,7 +974,8 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
-      resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
+      if (n5 != s1.n5 || n4 != s1.n4 || n3 != s1.n3 || n2 != s1.n2 || n1 != s1.n1)
+	resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
 	F[i] = s1.F[i];
@@ -1072,6 +1076,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From 0d477b5668fa83da9be012b798129cc0874504c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 07/17] fix: multi5d constructor takes all five sizes

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 362b178..323638f 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -932,7 +932,7 @@ template<class T> class multi5d
 public:
   multi5d() {F=0;n1=n2=n3=n4=n5=sz=0;copymem=false;}
   multi5d(T *f, int ns5, int ns4, int ns3, int ns2, int ns1) {F=f; n1=ns1; n2=ns2; n3=ns3; n4=ns4; n5=ns5; sz=n1*n2*n3*n4*n5; copymem=true;}
-  explicit multi5d(int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns4,ns3,ns2,ns1);}
+  explicit multi5d(int ns5, int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns5,ns4,ns3,ns2,ns1);}
   ~multi5d() {if (! copymem) {delete[] F;}}
 
   //! Copy constructor
-- 
2.43.0


From 12e9fc07efe09a7bcd548916187ea64cde1ab596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 08/17] fix: concat and scalar - multi1d work for every element
 type

---
 include/qdp_multi.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 323638f..47c5122 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -291,7 +291,7 @@ private:
 template<typename T>
 inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 {
-  multi1d<int> nz(l.size() + r.size());
+  multi1d<T> nz(l.size() + r.size());
   int j = 0;
   for(int i=0; i < l.size(); ++i)
     nz[j++] = l[i];
@@ -440,8 +440,9 @@ template< typename T>
 inline
 multi1d<T> operator-(const T& s, const multi1d<T>& a)
 {
-  multi1d<T> c(-a); 
-  c+=s;
+  multi1d<T> c(a.size());
+  c = s;
+  c-= a;
   return c;
 }
 //! Array - scalar
-- 
2.43.0


From 576f29d14dc1bee6666fa65191b8726b0c99f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 09/17] fix: copying or assigning an empty multiNd

---
 include/qdp_multi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 47c5122..e5a6a2a 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1030,7 +1030,7 @@ private:
 template<class T> class multiNd
 {
 public:
-  multiNd() {F=0;}
+  multiNd() {F=0;sz=0;}
   explicit multiNd(const multi1d<int>& _nz) {F=0;resize(_nz);}
   ~multiNd() {delete[] F;}
 
@@ -1048,7 +1048,7 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
+      sz = (nz.size() > 0) ? nz[0] : 0;
       for(int i=1; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
-- 
2.43.0


From 0f632274618059a4fff73ffe6ebd0cd03aaaa811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 10/17] fix: RANNYU keeps the top 12-bit digit of the seed
 modulo 4096

---
 lib/qdp_rannyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..75a28ee 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -47,7 +47,7 @@ namespace QDP
 	ll[2] = ii[2] & 4095;
 	ii[1] = ii[1] + (ii[2] >> 12);
 	ll[1] = ii[1] & 4095;
-	ll[0] = (ii[0] + (ii[1] >> 12)) >> 12;
+	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
     }
-- 
2.43.0


From 9e1828f5fbf659728a6ccf262597f9cbf8b56717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 11/17] fix: RANNYU keeps a seed set before the first draw, and
 saves the default seed

---
 lib/qdp_rannyu.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index 75a28ee..46b7249 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -34,6 +34,16 @@ namespace QDP
     // Hide the actual RNG
     namespace
     {
+      // Start from the default seed
+      void setrn_default()
+      {
+	ran_seed.resize(4);
+	for(int i=0; i < 4; ++i)
+	  ran_seed[i] = __default_seed[i];
+
+	inited = true;
+      }
+
       void __rand(double& ran, multi1d<int>& ll)
       {
 	int ii[4];
@@ -60,13 +70,7 @@ namespace QDP
 
       // Initialize the global seed if needed
       if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
+	setrn_default();
 
       __rand(ran, ran_seed);
       return ran;
@@ -83,12 +87,16 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
     //! Recover the seed
     multi1d<int> savern()
     {
+      if (! inited)
+	setrn_default();
+
       return ran_seed;
     }
 
-- 
2.43.0


From b1f1d831262f226d3e94df4a1336bd14ce0291fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 12/17] fix: random on a subset advances the global seed by the
 same stride, also without a site to fill

---
 include/qdp_scalar_specific.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 98fe90f..91ea071 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -341,6 +341,14 @@ random(OLattice<T>& d, const Subset& s)
   // Grab table array
   const int *tab = s.siteTable().slice();
 
+  // The new global seed: the same advance from any site, also when there is no site to fill
+  Seed new_seed = RNG::ran_seed;
+  {
+    Seed skewed_seed = RNG::ran_seed;
+    T dummy;
+    fill_random(dummy, new_seed, skewed_seed, RNG::ran_mult_n);
+  }
+
 #pragma omp parallel 
   {
     Seed seed;
@@ -353,13 +361,9 @@ random(OLattice<T>& d, const Subset& s)
       skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
       fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
     }
-
-#pragma omp critical (random)
-    {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
-    }
   }
 
+  RNG::ran_seed = new_seed;
 }
 
 
-- 
2.43.0


From 645e1b4a020a64e7d6c68ad957a587883ee7ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 13/17] fix: LatticeDColorMatrix products with the destination
 among the operands, in the SSE configuration

---
 .../qdp_scalarsite_linalg_double.cc           | 44 +++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
index 193f035..be2eb4b 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
@@ -20,6 +20,42 @@ namespace QDP {
 // Specialization to optimize the case   
 //    LatticeColorMatrix[ Subset] = LatticeColorMatrix * LatticeColorMatrix
 
+  // The kernels store rows of the result before they have read all of the
+  // operands: with the destination among the operands, go through a site temporary
+  inline 
+  void ssed_3mat_apply(REAL64* dm, REAL64* lm, REAL64* rm, int n_3mat,
+		       void (*func)(REAL64*, REAL64*, REAL64*, int))
+  {
+    if( dm != lm && dm != rm ) { 
+      func(dm,lm,rm,n_3mat);
+      return;
+    }
+
+    for(int i=0; i < n_3mat; i++, dm+=18, lm+=18, rm+=18) { 
+      REAL64 tmp[18] QDP_ALIGN16;
+      func(tmp,lm,rm,1);
+      for(int k=0; k < 18; k++) dm[k] = tmp[k];
+    }
+  }
+
+  // As above for dm += c*lm*rm
+  inline 
+  void ssed_3mat_const_apply(REAL64* dm, REAL64* c, REAL64* lm, REAL64* rm, int n_3mat,
+			     void (*func)(REAL64*, REAL64*, REAL64*, REAL64*, int))
+  {
+    if( dm != lm && dm != rm ) { 
+      func(dm,c,lm,rm,n_3mat);
+      return;
+    }
+
+    for(int i=0; i < n_3mat; i++, dm+=18, lm+=18, rm+=18) { 
+      REAL64 tmp[18] QDP_ALIGN16;
+      for(int k=0; k < 18; k++) tmp[k] = dm[k];
+      func(tmp,c,lm,rm,1);
+      for(int k=0; k < 18; k++) dm[k] = tmp[k];
+    }
+  }
+
 // Threading hoist
   struct ordered_ssed_3mat_args {
     REAL64* lm;
@@ -40,7 +76,7 @@ namespace QDP {
     REAL64* rm = &(a->rm[index]);
     REAL64* dm = &(a->dm[index]);
 
-    func(dm,lm,rm, n_3mat);
+    ssed_3mat_apply(dm,lm,rm, n_3mat, func);
   }
 
   struct unordered_ssed_3mat_args { 
@@ -68,7 +104,7 @@ namespace QDP {
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,lm, rm, 1);
+      ssed_3mat_apply(dm,lm, rm, 1, func);
     }
   }
       
@@ -279,7 +315,7 @@ void evaluate(OLattice< DCol >& d,
     REAL64* dm = &(a->dm[index]);
     REAL64* c  = a->c; // The const
 
-    func(dm,c,lm,rm, n_3mat);
+    ssed_3mat_const_apply(dm,c,lm,rm, n_3mat, func);
   }
 
   struct unordered_ssed_3mat_const_args { 
@@ -309,7 +345,7 @@ void evaluate(OLattice< DCol >& d,
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,a->c, lm, rm, 1);
+      ssed_3mat_const_apply(dm,a->c, lm, rm, 1, func);
     }
   }
       
-- 
2.43.0


From bfb028fc3466a76aab0b8c9460e6eebc2387d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 14/17] fix: opening a binary buffer resets its checksum

---
 lib/qdp_io.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..1881905 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -923,6 +923,7 @@ namespace QDP
 
   void BinaryBufferReader::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1353,6 +1354,7 @@ namespace QDP
 
   void BinaryBufferWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1546,6 +1548,7 @@ namespace QDP
 
   void BinaryBufferReaderWriter::open(const std::string& s)
   {
+    checksum = 0;
     if (Layout::primaryNode())
       f.str(s);
   }
-- 
2.43.0


From ed20d65454a3e04a598d0bac5813c9c946c4f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 15/17] fix: byte_swap counts elements in a size_t, like its
 argument

---
 lib/qdp_byteorder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_byteorder.cc b/lib/qdp_byteorder.cc
index 672db34..47810ea 100644
--- a/lib/qdp_byteorder.cc
+++ b/lib/qdp_byteorder.cc
@@ -28,7 +28,7 @@ namespace QDPUtil
   //! Byte-swap an array of data each of size nmemb
   void byte_swap(void *ptr, size_t size, size_t nmemb)
   {
-    unsigned int j;
+    size_t j;
 
     char char_in[16];		/* characters used in byte swapping */
 
-- 
2.43.0


From 803f632cfdf20b57fe5647943b8ebe56d079f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 16/17] fix: define operator<<(BinaryWriter&, char), which the
 header declares

---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 1881905..fc1c333 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1283,6 +1283,12 @@ namespace QDP
     return bin;
   }
 
+  BinaryWriter& operator<<(BinaryWriter& bin, char output)
+  {
+    write(bin, output);
+    return bin;
+  }
+
   BinaryWriter& operator<<(BinaryWriter& bin, int output)
   {
     write(bin, output);
-- 
2.43.0


From e0ad3ae10626286b782850171bedf5ef3210bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 17/17] fix: copies of a Set refer to their own site tables

---
 include/qdp_subset.h | 3 +++
 lib/qdp_subset.cc    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/qdp_subset.h b/include/qdp_subset.h
index 38aa4e9..11b29a6 100644
--- a/include/qdp_subset.h
+++ b/include/qdp_subset.h
@@ -101,6 +101,9 @@ public:
   //! Constructor from a function object
   Set(const SetFunc& fn) {make(fn);}
 
+  //! Copy constructor
+  Set(const Set& s) {*this = s;}
+
   //! Constructor from a function object
   void make(const SetFunc& fn);
 
diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index 68913b7..15f3b4f 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -162,6 +162,12 @@ namespace QDP
     sub = s.sub;
     lat_color = s.lat_color;
     sitetables = s.sitetables;
+
+    // The subsets must refer to the tables of this set, not those of s
+    for(int i=0; i < sub.size(); ++i)
+      sub[i].make(s.sub[i].ordRep, s.sub[i].startSite, s.sub[i].endSite,
+		  &(sitetables[i]), s.sub[i].sub_index, this);
+
     return *this;
   }
 
-- 
2.43.0

