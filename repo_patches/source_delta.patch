From b9098a246c67a1857d5a52a85abed4d0aa41c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 01/39] fix: fortranVectorF::put copies into its argument

put() ignored its parameter, so Rodascc never returned the solution.
---
 common/include/fortranVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index b361a26..ccfd014 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -410,7 +410,7 @@ public:
       ASSUME_ALIGNED(x);ASSUME_ALIGNED(_x);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
-	y[i]=x[i];
+	_x[i]=y[i];
     }
     //! print
     void print(string s="") const
-- 
2.43.0


From e22b595489a5befc1a7445833d100e5ea87010ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 02/39] fix: parenthesize the argument of ABS

ABS(xend-x) expanded to (-xend-x) when xend<x: backward integration was wrong.
---
 Radau5-NG/include/Radau5cc.hpp        | 2 +-
 Rock4-NG/include/ToolOMP.hpp          | 2 +-
 Rodas-NG/include/Rodascc.hpp          | 2 +-
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 common/include/Hessenberg.hpp         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 22d5e0c..0c202ca 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -14,7 +14,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 55dfd29..576689b 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -3,7 +3,7 @@
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
 #include "OdesException.hpp"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes {
   ///////////////////////////////////////////////////////////////////////////
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 13f62e4..e3780fc 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -13,7 +13,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index e3400ba..4929ba2 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -6,7 +6,7 @@
 #include "Extrap.hpp"
 #include <iostream>
 #define MAX(x,y) ((x)>(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes{
 ///////////////////////////////////////////////////////////////////////////
diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 377a6db..72b5480 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -4,7 +4,7 @@
 #include "fortranVector.hpp"
 using namespace odes;
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 /////////////////////////////////////////////////////////////////////////////
 /// All what is necessary to compute with Hessenberg matrices (but not
 /// the reduction of a full matrix to Hessenberg form (see Matrices.hpp).
-- 
2.43.0


From 864f734bb94e0537617734c9d9c564d3b6ebb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 03/39] fix: Rodascc vector tolerances were shifted by one and
 read past the end

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index e3780fc..4a050e5 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -232,8 +232,8 @@ namespace odes
 #include "Ivdep.hpp"
 	  for(int i=1;i<=n;i++)
 	    {
-	      rtol(i)=_rtol[i];
-	      atol(i)=_atol[i];
+	      rtol(i)=_rtol[i-1];
+	      atol(i)=_atol[i-1];
 	    }
 	}
     }
-- 
2.43.0


From 58d34585183d8e2165c59c5b28a82ba7beed6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 04/39] fix: Radau5cc retries after Newton used up its
 iterations

When Newton stopped after nit iterations, redonewton could still be false
(after any earlier convergence), so the unconverged stages were used for the
error estimate and possibly accepted; last was kept too, so that the halved
step could be taken for the final one and xend never reached.
---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0c202ca..d4e6d46 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -543,6 +543,7 @@ namespace odes
 		if(reason==didNotConverge)
 		  {
 		    //h/=2.; 
+		    redonewton=true; reject=true; last=false;
 		    seth(x,h*0.5);
 		    hhfac=0.5;
 		    if(!caljac) 
-- 
2.43.0


From 582eee82bf63133ac44b651db94ad0550e77d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 05/39] fix: Radau5cc initializes hopt when the first step is
 the last one

seth(x,hopt) used an uninitialized value (as in radau5.f: HOPT=H).
---
 Radau5-NG/include/Radau5cc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index d4e6d46..8377b8f 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -476,7 +476,6 @@ namespace odes
 	  seth(x,xend-x);
 	  last=true;
 	}
-      else
       hopt=h;
       xold=x;
 
-- 
2.43.0


From 0b9e84e521a5a5ed42f2612fb08d4f20b3d84193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 06/39] fix: Radau5cc::performOnlyOneStep updates x and the
 counters

y was advanced but x, naccpt and firstAcceptedStep were not.
---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 8377b8f..cd818f2 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -589,7 +589,6 @@ namespace odes
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-	      if(onlyOneStep) {Y+=Z3;break;}
 	      //step accepted
 	      if(naccpt==0) firstAcceptedStep=h;
 	      first=false;++naccpt;
@@ -609,6 +608,7 @@ namespace odes
 	      xold=x,hold=h;
 	      x=xph;
 	      Y+=Z3;
+	      if(onlyOneStep) break;
 	      
 	      double uC2M1=1./C2M1,uC2=1./C2;
 #include "Ivdep.hpp"
-- 
2.43.0


From 77d265eb8ad802c391c95f3dfe0f27a5b43290a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 07/39] fix: Radau5cc::operator() resets faccon

The result of an integration depended on the previous one done with the
same object.
---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index cd818f2..84a13d0 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -459,6 +459,7 @@ namespace odes
       cfac=safe*(1+2*nit); facr=1.e+0/8.e+0; facl=5.e+0;
       int reason=0;
       nstep=0; ndec=0;
+      faccon=1.;
       //h=_h;
       seth(x,_h);
       fortranVectorF<n> y0;
-- 
2.43.0


From 1097e7745d17469625de184dbafc2f4136c433cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 08/39] fix: the limit on the number of steps also stops
 repeated rejections

nmax was only tested after an accepted step: with a right-hand side that
returns NaN, Radau5cc and Rodascc never returned.
---
 Radau5-NG/include/Radau5cc.hpp | 6 +++---
 Rodas-NG/include/Rodascc.hpp   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 84a13d0..9970741 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -497,10 +497,10 @@ namespace odes
       for(;;)
 	{
 	  
-	  if(nstep>nmax)
-	    throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
-				  nmax);
 	  do{//20 in Hairer.
+	    if(nstep>nmax)
+	      throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
+				  nmax);
 	    ++nstep;
 	    // starting values for newton iteration:
 	    xph=x+h;
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 4a050e5..1747e76 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -465,10 +465,10 @@ namespace odes
 		  h=hnew;
 		  if(naccpt>1) ++nrejct;
 		}
+	      if(nstep>nmax)
+		throw OdesException("Rodas(): nstep too large:",nstep);
 	    }
 	  while(reject);
-	  if(nstep>nmax)
-	    throw OdesException("Rodas(): nstep too large:",nstep);
 	  if(onlyOneStep) break;
 	}
       
-- 
2.43.0


From 2fda4c48c30ccf803948006b5e0e7e8b6486fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 09/39] fix: Radau5cc::setFacrFacl has the documented effect

The values were overwritten at each call of operator(), and are stored as
the reciprocals of the documented bounds: _facl<= h/hold<=_facr.
---
 Radau5-NG/include/Radau5cc.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 9970741..78bfaec 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -402,7 +402,10 @@ namespace odes
     //! \param _facr
     //! \param _facl
     //! \note new step h is chose so that _facl<= h/hold<=facr
-    inline void setFacrFacl(double _facr,double _facl){facr=_facr;facl=_facl;}
+    inline void setFacrFacl(double _facr,double _facl)
+    {
+      facr=1.0/_facr;facl=1.0/_facl;
+    }
     //! perform Gustafsson test? (default yes).
     //! \param val boolean.
     inline void setGustafssonTest(bool val){gustafssonTest=val;}
@@ -456,7 +459,7 @@ namespace odes
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
       reject=false,last=false;
-      cfac=safe*(1+2*nit); facr=1.e+0/8.e+0; facl=5.e+0;
+      cfac=safe*(1+2*nit);
       int reason=0;
       nstep=0; ndec=0;
       faccon=1.;
-- 
2.43.0


From 1ad9e9b21529a6726e170b021b6f3536cb1bbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 10/39] fix: Radau5cc::getNfoncCalled counts the call made by
 the error estimator

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 78bfaec..d4e03c2 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -267,6 +267,7 @@ namespace odes
 	 {
 	   CONT1.sum(CONT1,y);
 	   F(t,&CONT1,&F1);
+	   ++nfonccalled;
 	   CONT1.sum(F1,F2);
 	   solvereal(CONT1,Jac);
 	   err=0.0;
-- 
2.43.0


From 75b93fdf744bb4e2b784f4c7ae2665e7026649a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 11/39] fix: Rodascc::getNrejct counts rejections that follow
 the first step

A step rejected after exactly one accepted step was not counted
(rodas.f: IF (NACCPT.GE.1) NREJCT=NREJCT+1).
---
 Rodas-NG/include/Rodascc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 1747e76..865dd95 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -463,7 +463,7 @@ namespace odes
 		  reject=true;
 		  last=false;
 		  h=hnew;
-		  if(naccpt>1) ++nrejct;
+		  if(naccpt>=1) ++nrejct;
 		}
 	      if(nstep>nmax)
 		throw OdesException("Rodas(): nstep too large:",nstep);
-- 
2.43.0


From d4787315629f03cf30078618af441eb6e675cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 12/39] fix: Radau5cc and Rodascc return at once when x==xend

The step size became 0, and so 1/h infinite.
---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 Rodas-NG/include/Rodascc.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index d4e03c2..e1cbc5a 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -469,6 +469,7 @@ namespace odes
       fortranVectorF<n> y0;
       fortranVector Y(y,n);
       xend=_xend;
+      if(xend==x) return;
       posneg=SIGN(xend-x);
       hmax=xend-x;
       hmaxn=MIN(ABS(hmax),ABS(xend-x));
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 865dd95..eaffdb2 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -329,6 +329,7 @@ namespace odes
       fortranVectorF<n> Y;
       Y=y;
       xend=_xend;
+      if(xend==x) return;
       posneg=SIGN(xend-x);
       hmax=xend-x;
       hmaxn=MIN(ABS(hmax),ABS(xend-x));
-- 
2.43.0


From 40573f15bdd2216633804fd4310c5b151342c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 13/39] fix: householder<1> ran out of bounds

For n==1 both loops stepped over their end (j!=jend) and never stopped.
---
 common/include/Hessenberg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 72b5480..4ff65d6 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -255,6 +255,7 @@ template<int n> void householder(const fortranArray<n>& A,const double tau[],
 				 bool direct)
 {
   Y=X;
+  if(n<3) return; // no reflection.
   int jbeg,jend,jinc;
   if(direct)
     {
-- 
2.43.0


From 0aed2193fe5d8d6f5e72ccd7d615f3c20ba115b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 14/39] fix: the copy constructor of fortranArray allocates its
 storage

---
 common/include/fortranArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index c988d23..afc4e24 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -26,7 +26,7 @@ public:
   //! constructor (copy).
   fortranArray(const fortranArray<n>& AA )
   {
-    ASSUME_ALIGNED(x);ASSUME_ALIGNED(AA.x);
+    x=allocDoubleArray(n2);
 #include "Ivdep.hpp"
     for(int i=0;i<n*n;i++)
       x[i]=AA.x[i];
-- 
2.43.0


From d4a110d0132ea78d37fe0762f7222f0201301ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 15/39] fix: a copied fortranVector no longer frees the
 original's storage

Passing an owning fortranVector by value, as its operator= does, left the
original with a dangling pointer, freed a second time later.
---
 common/include/fortranVector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index ccfd014..93b2557 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -53,6 +53,13 @@ public:
     deletable=false;
     x=_x; size=_size;;
   }
+  //! copy constructor: a view on the same values (passing by value).
+  //! \param V we share the values of V, which still owns them.
+  fortranVector(const fortranVector& V)
+  {
+    deletable=false;
+    x=V.x; size=V.size;
+  }
   //! destructor
   ~fortranVector()
   {
-- 
2.43.0


From 0d7e5261f33c8bf2fc2de411da6e089f4761ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 16/39] fix: print of the banded arrays used an uninitialized
 index

---
 common/include/fortranRectangularArray.hpp        | 2 +-
 common/include/fortranRectangularComplexArray.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index c31c02b..a47fdf7 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -108,7 +108,7 @@ public:
     cout<<s<<endl;
     for(int i=1;i<=n;i++)
       {
-  	for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+  	for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
   	  cout<<operator()(i,j)<<" ";
   	cout<<endl;
       }
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 6959aeb..29879a1 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -106,14 +106,14 @@ namespace odes{
       cout<<s<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Re(i,j)<<" ";
     	  cout<<endl;
     	}
       cout<<"---"<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Im(i,j)<<" ";
     	  cout<<endl;
     	}    
-- 
2.43.0


From 9aae2cbe82a0b859e6423d80bbff981952ae6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 17/39] fix: Matrices (Hessenberg): allocation of work,
 singular complex matrix

work is freed by destroyDoubleArray, so must come from allocDoubleArray
(with ALIGN_BLOCKED they are not new and delete); the rank returned by dechc
was ignored, where the other backends throw.
---
 common/include/Matrices.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index e08dea0..ba05b37 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -250,9 +250,9 @@ namespace odes
 	  k=work[0];
 	  if(lwork<k)
 	    {
-	      if(work!=0) delete[] work;
+	      if(work!=0) destroyDoubleArray(work);
 	      lwork=k;
-	      work=new double[lwork];
+	      work=allocDoubleArray(lwork);
 	    }
 	  dgehrd_(&nn,&ilo,&ihi,&Jac,&lda,tau,work,&k,&info);
 	  if(info!=0)
@@ -293,7 +293,10 @@ namespace odes
 	    }
 	  E2R(j,j)+=alpha; E2I(j,j)=beta;
 	}
-      dechc(E2R,E2I,ipi);
+      int info=dechc(E2R,E2I,ipi);
+      if(info!=0)
+	throw OdesException("odes::Matrices::Matrices, decomc (dechc): ",
+			       info);
     }
     inline void solvecomplex(fortranVectorF<n>& Zr,fortranVectorF<n>& Zi,
 			     const fortranArray<n>& Jac)
-- 
2.43.0


From 5dba54c534f786b93dddf5200c230a1efe8a2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 18/39] fix: functions defined in headers are inline

The headers could not be included in two translation units of a program.
---
 common/include/AllocateDestroyVector.hpp | 8 ++++----
 common/include/logger.hpp                | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/AllocateDestroyVector.hpp b/common/include/AllocateDestroyVector.hpp
index 4d78f90..36bdff5 100644
--- a/common/include/AllocateDestroyVector.hpp
+++ b/common/include/AllocateDestroyVector.hpp
@@ -12,14 +12,14 @@ namespace odes{
 #include "mm_malloc.h"
 #endif
 // Blocked alignment allocation.
-double *allocDoubleArray(int size)
+inline double *allocDoubleArray(int size)
 {return (double *) _mm_malloc(size*sizeof(double),BLOCK_FACTOR);}
-void destroyDoubleArray(double *x){_mm_free(x);}
+inline void destroyDoubleArray(double *x){_mm_free(x);}
 #define ASSUME_ALIGNED(lvalueptr) ASSUME_IS_ALIGNED(lvalueptr,BLOCK_FACTOR)
 #else
 // Classical {new,delete} allocation. We cannot assume aligment.
-double *allocDoubleArray(int size){return new double[size];}
-void destroyDoubleArray(double *x){delete[] x;}
+inline double *allocDoubleArray(int size){return new double[size];}
+inline void destroyDoubleArray(double *x){delete[] x;}
 #define ASSUME_ALIGNED(lvalueptr)
 #endif
 };
diff --git a/common/include/logger.hpp b/common/include/logger.hpp
index e2abac7..e82d206 100644
--- a/common/include/logger.hpp
+++ b/common/include/logger.hpp
@@ -73,7 +73,7 @@ namespace odes
     }
   };
   ///! overload <<
-  std::ostream& operator<<(std::ostream& os, const logger& obj)
+  inline std::ostream& operator<<(std::ostream& os, const logger& obj)
   {
     // write obj to stream
     os<<obj.tostring();
-- 
2.43.0


From 02a9e1f06709486474d1517a3eee15a0fe56df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 19/39] fix: data race in ToolOMP::rpp2

The error estimate was summed by all threads into one shared variable.
---
 Rock4-NG/include/ToolOMP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 576689b..789ffa8 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -143,7 +143,7 @@ namespace odes {
       ASSUME_ALIGNED(x3);  ASSUME_ALIGNED(x4); 
       ASSUME_ALIGNED(x5);  ASSUME_ALIGNED(y);
 #ifdef ROCK4_OMP
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:ret)
 #endif       
       for(int i=0;i<size;i++)
 	{
-- 
2.43.0


From ff428da634f333df785adae9cad927e9a825ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 20/39] fix: Rock4 and Rock4L end exactly at tend

t+(tend-t) can round to just below tend: one more step was tried, and refused
as too small with an exception.
---
 Rock4-L/include/Rock4L.hpp | 752 ++++++++++++++++++-------------------
 Rock4-NG/include/Rock4.hpp |   2 +-
 2 files changed, 377 insertions(+), 377 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index c663f4f..acd686d 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,376 +1,376 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel1(y,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel2(y,b,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
+      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel1(y,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel2(y,b,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 7351e97..6d2c913 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -249,7 +249,7 @@ namespace odes {
 	    {
 	      //accepted step.
 	      ++nacc; facmax=2.0e0;
-	      t+=h;
+	      t=h==ABS(tend-t)? tend:t+h;
 	      hlast=h;
 	      if (reject)
 		{
-- 
2.43.0


From c7e7ebf72ad53168e323480e0ba48d7531ce439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 21/39] fix: Rock4L::NbRhsComputed counts the evaluations done

A step evaluates mdeg+4 times, mdeg+5 were counted.
---
 Rock4-L/include/Rock4L.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index acd686d..fd1b007 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -138,7 +138,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
@@ -205,7 +205,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
-- 
2.43.0


From 828630b544641b2b6110ad1c0ea5c56b9a9c1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 22/39] fix: Extrap indexes the stages with stride n

The stage vectors have n components; with stride nsteps the prediction was
wrong, and out of bounds when nsteps>n.
---
 SymplecticRK/include/Extrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index ce8baa2..923107c 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -42,12 +42,12 @@ namespace odes{
       for(int i=0;i<nsteps;i++)
 	{
 	  for(int l=0;l<n;l++)
-	    Y[nsteps*i+l]=u[l];
+	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
 	      double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
-		Y[nsteps*i+l]+=beta*F[nsteps*j+l];
+		Y[n*i+l]+=beta*F[n*j+l];
 	    }
 	}
 	    
-- 
2.43.0


From bd0fdf9dfa8888cda2f621b92f1bef24edcf352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 23/39] fix: Radau5cc rejects a step whose second error
 estimate is undefined

When the first estimate is >= 1, a second one calls F at an auxiliary
point. If F gives NaN there, MAX(NaN,1.e-10) made the estimate 1.e-10 and
the step was accepted.
---
 Radau5-NG/include/Radau5cc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index e1cbc5a..3534556 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -273,7 +273,10 @@ namespace odes
 	   err=0.0;
 	   for(int i=1;i<=n;i++)
 	     err+=pow(CONT1(i)/scal(i),2);
-	  err=MAX(sqrt(err*n1),1.e-10);
+	   err=sqrt(err*n1);
+	   // F can be undefined (NaN) at this auxiliary point: then the step
+	   // must stay rejected (MAX(NaN,1)=1).
+	   err= err<1.0 ? MAX(err,1.e-10) : MAX(err,1.0);
 	 }
 
       return err;
-- 
2.43.0


From baed01f3b3ab8cb799c5fb79cc7fcac3e11bf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 24/39] fix: the last step reported by Radau5cc is also right
 backwards

hopt was the minimum of h and hnew, that is the largest step when they are
negative.
---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 3534556..bdd5025 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -642,7 +642,7 @@ namespace odes
 	      F(x,y,&y0);
 	      ++nfonccalled;
 	      hnew=posneg*MIN(ABS(hnew),hmaxn);
-	      hopt=MIN(h,hnew);
+	      hopt=posneg*MIN(ABS(h),ABS(hnew));
 	      if(reject)
 		hnew=posneg*MIN(ABS(hnew),ABS(h));
 	      reject=false;
-- 
2.43.0


From 123660bff892a3c562f5a458fb660f7ff052d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 25/39] fix: Rodascc reduces the step when the error estimate
 is undefined

---
 Rodas-NG/include/Rodascc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index eaffdb2..609e6ad 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -432,7 +432,8 @@ namespace odes
 	      
 	      // computation of hnew. 
 	      // We require: .2<=hnew/h<=6.
-	      fac=MAX(fac2,MIN(fac1,sqrt(sqrt(err))/safe));
+	      // (if err is NaN, the comparison is false and the step is reduced)
+	      fac=MAX(fac2,MIN(sqrt(sqrt(err))/safe,fac1));
 	      double hnew=h/fac;
 	      //Is error small enough ?
 	      if(err<=1.0)
-- 
2.43.0


From 98c4f2cc5853ada9a7a44ec936b1469c7b6d3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 26/39] fix: Rock4 keeps its buffers distinct when the
 right-hand side throws

---
 Rock4-NG/include/Rock4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 6d2c913..b374fc3 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -58,7 +58,8 @@ namespace odes {
     //! \note return error estimator value.
      double kernel(double * Restrict &y,double dt)
     {
-      double *g1=temp;
+      // (a reference: if F throws, temp and g0 must stay distinct)
+      double *&g1=temp;
       Fonc& F=*Fp;// told=0.;
       double mz=mp[1],mr=mp[2];
 
@@ -85,7 +86,6 @@ namespace odes {
 	    }
 	}
       if(mdeg>=2) switchAdr(g1,g0);
-      temp=g1;
       funccal+=mdeg-1;
       // result of the recurrence is always in g0.
       //
-- 
2.43.0


From 9e3b4a661f919aeba83202a1bef1a6310269ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 27/39] fix: Rock4 asks the spectral radius again every 10
 accepted steps, also after a rejection

---
 Rock4-NG/include/Rock4.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index b374fc3..2375406 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -264,7 +264,6 @@ namespace odes {
 	      hp=h; h=hnew;
 	      errp=err;
 	      switchAdr(temp,y); switchAdr(g0,fn);
-	      ++nrho;
 	      nrho=(nrho+1)%10;
 	      if(1.1*h>=ABS(tend-t)) h=ABS(tend-t);
 	    }
-- 
2.43.0


From 6321af6106a3bebbf8f5d2ea06d768fbfa860bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 28/39] fix: CrN performs a full Crank-Nicolson step
 (D=B.inv(A)=2)

---
 SDIRKL/include/CrN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SDIRKL/include/CrN.hpp b/SDIRKL/include/CrN.hpp
index 531d5c7..c0603bc 100644
--- a/SDIRKL/include/CrN.hpp
+++ b/SDIRKL/include/CrN.hpp
@@ -15,7 +15,7 @@ struct CrN
   CrN()
   {
     A[0][0]=0.5;
-    D[0]=1.;
+    D[0]=2.;
     S[0]=0.5;
     name="CrN";
   }
-- 
2.43.0


From d2e29194efc907a54dca1bafff14ec212b17a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 29/39] fix: the Gauss coefficients for double have the
 precision of double

They had 12 digits: quadratic invariants were not conserved up to rounding.
---
 SymplecticRK/sage/comp1.sage           |   3 +-
 SymplecticRK/sage/generated_coeffs.hpp | 270 ++++++++++++-------------
 2 files changed, 137 insertions(+), 136 deletions(-)

diff --git a/SymplecticRK/sage/comp1.sage b/SymplecticRK/sage/comp1.sage
index e42bd70..9f00318 100644
--- a/SymplecticRK/sage/comp1.sage
+++ b/SymplecticRK/sage/comp1.sage
@@ -69,7 +69,8 @@ def lcoeffs(s,Rout,Rpivot):
 # "main" program starts here.
 ######################################################################
 
-rngs=[(RDF,"double"),(RealField(112),"long double")]
+# (RDF prints 12 digits only: not enough for "double")
+rngs=[(RealField(112),"double"),(RealField(112),"long double")]
       
 cc="copy(la.begin(),la.end(),a);\ncopy(lb.begin(),lb.end(),b);\n}\n"
 
diff --git a/SymplecticRK/sage/generated_coeffs.hpp b/SymplecticRK/sage/generated_coeffs.hpp
index be5e700..8af8613 100644
--- a/SymplecticRK/sage/generated_coeffs.hpp
+++ b/SymplecticRK/sage/generated_coeffs.hpp
@@ -1,7 +1,7 @@
 template<> void icoeffs<2,double>(double* a,double* b)
 {
-initializer_list<double> la={0.25,-0.0386751345948,
-0.538675134595,0.25};
+initializer_list<double> la={0.250000000000000000000000000000000,-0.0386751345948128822545743902509787,
+0.538675134594812882254574390250979,0.250000000000000000000000000000000};
 
 initializer_list<double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000};
 
@@ -11,9 +11,9 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<3,double>(double* a,double* b)
 {
-initializer_list<double> la={0.138888888889,-0.0359766675249,0.00978944401531,
-0.300263194981,0.222222222222,-0.0224854172031,
-0.267988333762,0.480421111969,0.138888888889};
+initializer_list<double> la={0.138888888888888888888888888888889,-0.0359766675249389034563954710966044,0.00978944401530832604958004222947557,
+0.300263194980864592438024947213156,0.222222222222222222222222222222222,-0.0224854172030868146602471694353778,
+0.267988333762469451728197735548302,0.480421111969383347900839915541049,0.138888888888888888888888888888889};
 
 initializer_list<double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778};
 
@@ -23,10 +23,10 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<4,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0869637112844,-0.026604180085,0.0126274626894,-0.0035551496858,
-0.1881181175,0.163036288716,-0.0278804286025,0.00673550059454,
-0.167191921974,0.353953006034,0.163036288716,-0.0141906949311,
-0.177482572255,0.313445114742,0.352676757516,0.0869637112844};
+initializer_list<double> la={0.0869637112843634643432659873054999,-0.0266041800849987933133851304769531,0.0126274626894047245150568805746181,-0.00355514968579568315691098184956959,
+0.188118117499868071650685545087171,0.163036288715636535656734012694500,-0.0278804286024708952241511064189974,0.00673550059453815551539866908570376,
+0.167191921974188773171133305525296,0.353953006033743966537619131807998,0.163036288715636535656734012694500,-0.0141906949311411429641535704761715,
+0.177482572254522611843442956460569,0.313445114741868346798411144814382,0.352676757516271864626853155865953,0.0869637112843634643432659873054999};
 
 initializer_list<double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411};
 
@@ -36,11 +36,11 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<5,double>(double* a,double* b)
 {
-initializer_list<double> la={0.059231721264,-0.0195703643591,0.0112544008186,0.00158811296787,-0.00559379366081,
-0.12815100567,0.119657167625,-0.0245921146196,-0.00276899439877,0.0103182806707,
-0.113776288004,0.260004651681,0.142222222222,0.00468715452387,-0.020690316431,
-0.11687532956,0.24490812891,0.273190043626,0.059231721264,0.258884699609,
-0.121232436927,0.228996054579,0.309036559064,-0.00968756314195,0.119657167625};
+initializer_list<double> la={0.0592317212640472718785660101799793,-0.0195703643590760374926432140508841,0.0112544008186429555527162442150907,0.00158811296786599853936524247059342,-0.00559379366081218487681772196447593,
+0.128151005670045283496166848329514,0.119657167624841617010322878708910,-0.0245921146196422003893182516860040,-0.00276899439876960304428263075887960,0.0103182806706833574089539450563558,
+0.113776288004224602528741273815366,0.260004651680641518592405895187574,0.142222222222222222222222222222222,0.00468715452386994122839074654459310,-0.0206903164309582845717601377697549,
+0.116875329560228545217766777889365,0.244908128910495418897463479382295,0.273190043625801488891728200229354,0.0592317212640472718785660101799793,0.258884699608759271513288971468703,
+0.121232436926864146801414651118838,0.228996054578999876611691812361463,0.309036559064086644833762696130448,-0.00968756314195073973903482796955514,0.119657167624841617010322878708910};
 
 initializer_list<double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788};
 
@@ -50,12 +50,12 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<6,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0428311230948,-0.0147637259972,0.00932505070648,-0.00566885804948,0.0028544333151,-0.000812780171265,
-0.0926734914304,0.090190393262,-0.0203001022932,0.0103631562402,-0.00488719292804,0.00135556105549,
-0.0822479226128,0.196032162333,0.116978483643,-0.0204825277457,0.00798999189966,-0.00207562578487,
-0.0877378719745,0.172390794624,0.254439495032,0.116978483643,-0.0156513758092,0.00341432357674,
-0.0843066851341,0.185267979452,0.223593811046,0.25425706958,0.090190393262,-0.00701124524079,
-0.0864750263608,0.177526353209,0.239625825336,0.22463191658,0.195144512521,0.0428311230948};
+initializer_list<double> la={0.0428311230947925862600740355431832,-0.0147637259971974124753725910605207,0.00932505070647775119143888450800315,-0.00566885804948351190092125641621651,0.00285443331509933513092928583011602,-0.000812780171264762112299135651562540,
+0.0926734914303788631865122917633203,0.0901903932620346518924583784594290,-0.0203001022932395859524940805242725,0.0103631562402464237307199458065600,-0.00488719292803767146341420376578964,0.00135556105548506177551787075080011,
+0.0822479226128438738077716511411289,0.196032162333245006055759781563801,0.116978483643172761847467585997388,-0.0204825277456560976298590118654006,0.00798999189966233579720442148030827,-0.00207562578486633419359528915758165,
+0.0877378719744515067137433602439481,0.172390794624406967987712335438550,0.254439495032001621324794183860176,0.116978483643172761847467585997388,-0.0156513758091757022708430246449433,0.00341432357674129871237641994523753,
+0.0843066851341001107446302003355663,0.185267979452106975248330960684648,0.223593811046099099964215226188216,0.254257069579585109647429252519048,0.0901903932620346518924583784594290,-0.00701124524079369066636422067695387,
+0.0864750263608499346324472067379290,0.177526353208969968653987471088742,0.239625825335829035595856428410992,0.224631916579867772503496287486772,0.195144512521266716260289347979379,0.0428311230947925862600740355431832};
 
 initializer_list<double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044};
 
@@ -65,13 +65,13 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<7,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0323712415422,-0.0114510172832,0.00763320387242,-0.00513373356323,0.00317505877369,-0.00160681903705,0.000458109523749,
-0.0700435413787,0.0699263478723,-0.0165900065788,0.00934962278344,-0.0053970919319,0.00264584386673,-0.000743850190172,
-0.0621539357873,0.152005522058,0.0954575126263,-0.0183752442155,0.00871256259848,-0.00395358015881,0.00107671561563,
-0.0663329286177,0.133595769224,0.207701880766,0.104489795918,-0.0167868555134,0.00625692652076,-0.00159044553325,
-0.0636657674688,0.143806275903,0.182202462654,0.227354836052,0.0954575126263,-0.0121528263132,0.00258854729708,
-0.0654863332746,0.137206851878,0.196312117184,0.199629969053,0.207505031831,0.0699263478723,-0.00530105829429,
-0.0642843735607,0.141459514782,0.187739966479,0.2141133254,0.18328182138,0.151303713028,0.0323712415422};
+initializer_list<double> la={0.0323712415422174233176528581697705,-0.0114510172831838702881645824731459,0.00763320387242354492584664422163565,-0.00513373356322534498195629758233913,0.00317505877368563763683431730199470,-0.00160681903704610585560610128347643,0.000458109523749452982298319621634935,
+0.0700435413787260762729814536065897,0.0699263478723191669753669428559449,-0.0165900065788477711644699061373328,0.00934962278344333207631107766792938,-0.00539709193189613785462120177242070,0.00264584386673003737983031295579446,-0.000743850190171923617331065816899149,
+0.0621539357873498645358789291293530,0.152005522057830992561321708847833,0.0954575126262797362375924438722438,-0.0183752442154518373892046007271753,0.00871256259847518198378369475574952,-0.00395358015881043812088052856667313,0.00107671561562791673820514665018881,
+0.0663329286176847005521322620413143,0.133595769223882288417924053929659,0.207701880765970782089300497781520,0.104489795918367346938775510204082,-0.0167868555134113096141156100370328,0.00625692652075604553280983178223092,-0.00159044553324985391682654570177327,
+0.0636657674688069298971005696893522,0.143806275903448772071614414278563,0.182202462654084290491401192988738,0.227354836052186531266755621135339,0.0954575126262797362375924438722438,-0.0121528263131926586105878231359428,0.00258854729708498209942678721018804,
+0.0654863332746067702526367821564402,0.137206851877908296570903572756095,0.196312117184455610329806089516908,0.199629969053291361801239942740234,0.207505031831407243639654793881820,0.0699263478723191669753669428559449,-0.00530105829429122963767573726704867,
+0.0642843735606853936530073967179061,0.141459514781684439806339986995366,0.187739966478873834838350570442493,0.214113325399960038859507317990502,0.183281821380135927549338243522852,0.151303713027822204238898468185036,0.0323712415422174233176528581697705};
 
 initializer_list<double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471};
 
@@ -81,14 +81,14 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<8,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0253071340726,-0.00910594330597,0.00628083114703,-0.00448301561305,0.00307849136833,-0.00191767525464,0.000972757664059,-0.000277508327117,
-0.0547593217676,0.0555952586133,-0.0136397962358,0.00814970885836,-0.00521535208915,0.00313975298546,-0.00156493491095,0.000442802304342,
-0.0485875359989,0.120859524997,0.0784266614695,-0.0159751033619,0.00837173272023,-0.0046434658621,0.00222571477528,-0.000618805695251,
-0.0518655209706,0.106193490148,0.170671134275,0.0906709458446,-0.016021041321,0.00724120656122,-0.00319781431036,0.000859236584265,
-0.0497550315609,0.114388331537,0.149612116378,0.19736293301,0.0906709458446,-0.0138178113356,0.00499702707834,-0.00125125282539,
-0.0512330738404,0.108964802451,0.161496788801,0.172970158969,0.197316995051,0.0784266614695,-0.00966900777049,0.00202673214628,
-0.0501714658408,0.112755452138,0.153713569953,0.186557243778,0.173192182831,0.170493119175,0.0555952586133,-0.00414505362237,
-0.0508917764723,0.110217759563,0.158770998194,0.178263400321,0.185824907302,0.150572491792,0.120296460533,0.0253071340726};
+initializer_list<double> la={0.0253071340725940647881328385774905,-0.00910594330597007502136365210466435,0.00628083114703047398060942073780760,-0.00448301561305475144191331423530155,0.00307849136832677988985383064911711,-0.00191767525463695234092563511949444,0.000972757664059263526724523824088790,-0.000277508327116919222898446613780209,
+0.0547593217675543202831907973850023,0.0555952586133436176360889986065602,-0.0136397962357816692530306620699761,0.00814970885836055053604042748372916,-0.00521535208914715338024336977463765,0.00313975298546366894234500690115627,-0.00156493491094894237579511140443043,0.000442802304342237815626944634681052,
+0.0485875359989128809431601473474389,0.120859524997173167441653743003485,0.0784266614694718218344905504966503,-0.0159751033618784314756701138556965,0.00837173272022616378691032206439061,-0.00464346586210447979012617007024473,0.00222571477528489971831530140789318,-0.000618805695250515367603304988539769,
+0.0518655209705812345653120779649669,0.106193490148348406878869450082582,0.170671134274553621284710784603994,0.0906709458445904957412876123192989,-0.0160210413210250131687052177938008,0.00724120656122226986180306301493881,-0.00319781431036077032248274309542093,0.000859236584264852689466901723348634,
+0.0497550315609232768867987754316325,0.114388331537048005594660740308541,0.149612116377721373807178037978362,0.197362933010206004651280442432399,0.0906709458445904957412876123192989,-0.0138178113356099776157296836106934,0.00499702707833882839330854713053803,-0.00125125282539310498904640080998583,
+0.0512330738404386449438689821435209,0.108964802451402335553862695805227,0.161496788801048123459107271063545,0.172970158968954827695664902574207,0.197316995051059422958245338494294,0.0784266614694718218344905504966503,-0.00966900777048593216947574579036441,0.00202673214627524863310552980754224,
+0.0501714658408458917606387325203000,0.112755452137636177647973108617551,0.153713569953479974726636094092144,0.186557243778328144862818594413235,0.173192182830820440946534797154869,0.170493119174725312922011763063277,0.0555952586133436176360889986065602,-0.00414505362236619070692512023002115,
+0.0508917764723050487991641237687613,0.110217759562627971745453473389032,0.158770998193580596009906736112795,0.178263400320854211592721393989481,0.185824907302235742924488538873899,0.150572491791913169688371680255493,0.120296460532657310293541649317785,0.0253071340725940647881328385774905};
 
 initializer_list<double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785};
 
@@ -98,15 +98,15 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<9,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0203185970904,-0.00739786856615,0.0052220035921,-0.00387345129174,0.00283136945007,0.00122660978881,-0.000622964091649,0.000177778462745,-0.00196219418839,
-0.0439655272265,0.0451620401737,-0.0113354640123,0.00703476680173,-0.00478827613102,-0.00196440573995,0.000987172103666,-0.000280274237641,0.00320336015198,
-0.0390086533963,0.0981815119598,0.0651526741007,-0.0137708339866,0.00766417562464,0.00277082889276,-0.00136167198307,0.000382532112918,-0.0047135864678,
-0.0416450870273,0.0862554727725,0.141795216041,0.07808676926,-0.0146189578759,-0.00393283991504,0.00185268620082,-0.000510573474929,0.00730042826218,
-0.0399403728698,0.0929433722727,0.124257110411,0.170000445255,0.0825598387503,0.00604823779069,-0.00261929192529,0.000696821310952,-0.0138269067353,
-0.0402546620679,0.0916857523305,0.127534519309,0.160887124988,0.157455501876,0.0651526741007,-0.00785743161242,0.0016285407845,0.169944372507,
-0.0409174684184,0.0893369082438,0.132269753941,0.152970178368,0.169907953632,0.141640812214,0.0451620401737,-0.00332833304574,0.149138771718,
-0.040459415718,0.0909470444391,0.129078738413,0.158135732708,0.162288308051,0.125083344609,0.0977219489136,0.0203185970904,0.160046989812,
-0.0411477676557,0.0884713941466,0.134238188117,0.148873110258,0.179738635377,-0.0114898678397,0.00406860757492,-0.00100789284654,0.07808676926};
+initializer_list<double> la={0.0203185970903936029929730395276309,-0.00739786856614878686542489503086324,0.00522200359210005389185584360564744,-0.00387345129174498055049537887338993,0.00283136945006983986354937012363709,0.00122660978881256074839466284462653,-0.000622964091648914481159571486571450,0.000177778462744798652780015293222430,-0.00196219418839121917026118745577622,
+0.0439655272265284041585412645645087,0.0451620401737143510146180078107282,-0.0113354640123350470465925464814319,0.00703476680173468143903695814226945,-0.00478827613101664029445945068615472,-0.00196440573995350861710011819853350,0.000987172103665947150853208009195396,-0.000280274237640940717284308546381075,0.00320336015198485576267209135093205,
+0.0390086533962843337053406260551850,0.0981815119598481585602972012795661,0.0651526741007338655796857173546582,-0.0137708339866085721988706377249966,0.00766417562464213864225207092504704,0.00277082889275901981606719881443306,-0.00136167198307300388077294236226989,0.000382532112918055676721205511905614,-0.00471358646779919455507145952426565,
+0.0416450870273228085684590957995216,0.0862554727725037766071341170647431,0.141795216041145464700711349265044,0.0780867692600007100171576016461109,-0.0146189578759125574286313738589815,-0.00393283991503873128187398305621736,0.00185268620082252394849783525333888,-0.000510573474928686025187960892672731,0.00730042826218022637446431145744470,
+0.0399403728698347433203974299378427,0.0929433722727170869747695620130788,0.124257110410775669930284959188188,0.170000445255253483576298037267459,0.0825598387503149407911312673217435,0.00604823779069206122908647552112829,-0.00261929192528838494553354639162238,0.000696821310952462665548649117419158,-0.0138269067352520635419828339752373,
+0.0402546620678691503092248735433562,0.0916857523305017059100089579837263,0.127534519308708711343304235894883,0.160887124987800614589386662816487,0.157455501875987742940010463718440,0.0651526741007338655796857173546582,-0.00785743161241945653106118565810966,0.00162854078450287228060545300007680,0.169944372506609992233185841017218,
+0.0409174684184281467032303876016429,0.0893369082437627548783828076122610,0.132269753941421239776471552907850,0.152970178368016564271643111941290,0.169907953631646521876721985329642,0.141640812213802778205963981190748,0.0451620401737143510146180078107282,-0.00332833304574119817259518550924687,0.149138771718266738595278245149952,
+0.0404594157180424073331660637620394,0.0909470444390776165103955871080279,0.129078738412655170410976771864690,0.158135732708392639204576390747998,0.162288308050560041718713164519850,0.125083344609367677267515591103669,0.0977219489135774888946609106523197,0.0203185970903936029929730395276309,0.160046989811746400584810582165612,
+0.0411477676557158920111340399479346,0.0884713941466061780807381803681175,0.134238188116506462441245417765534,0.148873110257821193659850891834777,0.179738635376542439010893908502469,-0.0114898678396777335413399145557277,0.00406860757492492542210189855671329,-0.00100789284653560258251301674425978,0.0780867692600007100171576016461109};
 
 initializer_list<double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123};
 
@@ -116,16 +116,16 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<10,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0166678360772,-0.00612068029234,0.00439200373029,-0.00334535050883,0.00254756897028,-0.00188262038694,0.0013108146277,-0.000820986353138,0.000417243835668,-0.000119093958462,
-0.0360661525782,0.0373628372876,-0.00953137359189,0.00607228446174,-0.00430404581296,0.00306851861087,-0.00209411395745,0.0012962496555,-0.000654328115142,0.000186135539,
-0.0319991179775,0.0812275701119,0.054771590629,-0.0118776128915,0.00687814639771,-0.00450274329686,0.00294087333141,-0.00177613374657,0.000884246091931,-0.00024983875397,
-0.0341639921791,0.0713553690746,0.119207290549,0.0673166798275,-0.0130965195472,0.00694886598384,-0.00414845352723,0.00239281424177,-0.00116229795133,0.00032456210553,
-0.0327609312913,0.0769022997036,0.104444079563,0.14656624555,0.0738810561787,-0.0131122091696,0.00633145505482,-0.00333810079768,0.00155179916885,-0.000424726034358,
-0.0337603981887,0.0731738754064,0.112881282056,0.1283019046,0.160874321527,0.0738810561787,-0.0119328858954,0.0050991016949,-0.00217662512836,0.00057474086306,
-0.0330111100488,0.0758879725266,0.107150367016,0.138781813182,0.140813246374,0.160858631905,0.0673166798275,-0.00966410929077,0.00337030550065,-0.000828320024765,
-0.0335855109083,0.0738414284834,0.111319315005,0.131692486324,0.152264855654,0.14088396596,0.146510972547,0.054771590629,-0.00650189553657,0.00133655417683,
-0.0331495366153,0.0753800026904,0.108246931602,0.136727473612,0.144693593747,0.15206615817,0.128561075193,0.11907455485,0.0373628372876,-0.00273048042385,
-0.0334547661128,0.0743084307396,0.110364167611,0.133322545027,0.149644732744,0.145214543387,0.137978710164,0.105151177528,0.0808463548676,0.0166678360772};
+initializer_list<double> la={0.0166678360771720343983922024733329,-0.00612068029233502987025308987906619,0.00439200373028852221698614553887794,-0.00334535050882549470870888176133072,0.00254756897027876354904962225738170,-0.00188262038693525661085207791056827,0.00131081462770308391842832788419797,-0.000820986353138291127367521983463229,0.000417243835667835720457601113273652,-0.000119093958462027525114333774861831,
+0.0360661525781943304506967868615967,0.0373628372876451482864440849144243,-0.00953137359188965945260757183913681,0.00607228446174392218489428998019616,-0.00430404581295939200907563270911149,0.00306851861086753558695384716440183,-0.00209411395745032284831574789258204,0.00129624965549819963331444499418201,-0.000654328115142468560893715735581344,0.000186135539000451362540870049864093,
+0.0319991179775146101939898453822534,0.0812275701118607728515460679181319,0.0547715906289955109988837335570408,-0.0118776128915294264824282010922476,0.00687814639770714478385800606631069,-0.00450274329686185241607146970564758,0.00294087333141394952634963014459878,-0.00177613374657410074450312651393922,0.000884246091931209019529692891224078,-0.000249838753970020848317861205161996,
+0.0341639921791087090319388879631186,0.0713553690746355578848296638813347,0.119207290548758140477788951389364,0.0673166798274990887728067303923673,-0.0130965195471968997587876242976924,0.00694886598383539031062731500230080,-0.00414845352723169508779133417255612,0.00239281424177035654040595767259466,-0.00116229795133242643161918981684538,0.000324562105530182860167670403121262,
+0.0327609312912844373135061555894162,0.0769022997036484359436613608768349,0.104444079563094207185198585546974,0.146566245550415954620379616976850,0.0738810561786882175434732486628346,-0.0131122091695853752390419769315554,0.00633145505482068380026709671442490,-0.00333810079767527560194800163458398,0.00155179916885143634252135178552101,-0.000424726034358327350430438151576489,
+0.0337603981887023961472148430982424,0.0731738754064388602303668180433277,0.112881282055666297599715468748666,0.128301904600177493745346364070310,0.160874321526961810325988474257225,0.0738810561786882175434732486628346,-0.0119328858954177770747661561921157,0.00509910169489681481256888156710769,-0.00217662512835813937077319104798624,0.000574740863059631483278249357249694,
+0.0330111100488138859366167345435446,0.0758879725266227230045073596456940,0.107150367016220665457361509441487,0.138781813182229872633404794957291,0.140813246373541044776319182323368,0.160858631904573334845734121623362,0.0673166798274990887728067303923673,-0.00966410929076711848002148427528283,0.00337030550065473868805850594751399,-0.000828320024764640235154483016452740,
+0.0335855109083140896451022661518279,0.0738414284833590875533584769376246,0.111319315004565122742270593628021,0.131692486323584228019263830640136,0.152264855654238287503017967031317,0.140883965959669290303088491259358,0.146510972546527604028041661876982,0.0547715906289955109988837335570408,-0.00650189553657047627865789808928320,0.00133655417682945860279455956441249,
+0.0331495366153436174342435348968018,0.0753800026904327651337818855644300,0.108246931602492822364453022119900,0.136727473612448500393929208677317,0.144693593746508899499992650161267,0.152066158170335827096022130034781,0.128561075193254255360719170804539,0.119074554849880681450375038953218,0.0373628372876451482864440849144243,-0.00273048042385026165391238191493083,
+0.0334547661128060963218987387215277,0.0743084307396224608524305687155750,0.110364167611129313125134989097545,0.133322545027295093627185132900537,0.149644732744311691697798575236237,0.145214543387097671537896875068287,0.137978710163823672254322342546065,0.105151177527702499780781321575204,0.0808463548676253264431412597079149,0.0166678360771720343983922024733329};
 
 initializer_list<double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219};
 
@@ -135,17 +135,17 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<11,double>(double* a,double* b)
 {
-initializer_list<double> la={0.013917141779,-0.00514325562983,0.00373560374914,-0.00290037905138,0.00227274215265,-0.00175240116264,0.00130248911732,-0.000909279657712,0.000570136062283,-0.000289875324978,8.27488930846e-05,
-0.0301142391948,0.0313950923662,-0.00810562697908,0.00526282127354,-0.00383743668169,0.00285354676448,-0.00207783291715,0.00143267781288,-0.000891466711988,0.000451184930916,-0.000128498936997,
-0.0267179838503,0.0682542809172,0.0465725527319,-0.0102895248153,0.00612667324767,-0.00418053753705,0.0029106679541,-0.00195573987509,0.00119821656507,-0.000600947942995,0.000170372117196,
-0.0285266689062,0.0599560307356,0.101365041154,0.058298441148,-0.0116536925867,0.0064383812978,-0.00409164865278,0.00262061890572,-0.00156237108007,0.000771530960015,-0.00021706539084,
-0.0273528599994,0.0646238924303,0.0888021849344,0.126937527092,0.0657011361276,-0.0121240615804,0.00621926257425,-0.00363063338386,0.00206324037555,-0.000992886275646,0.000275899729895,
-0.0281917210619,0.0614771890632,0.0959986109029,0.111095774316,0.143076752307,0.0682312716945,-0.0116744800519,0.00550110797963,-0.00285350543903,0.00131299566925,-0.00035743750378,
-0.0275583838282,0.0637830710081,0.0910818650883,0.12022751568,0.125183009681,0.148586604969,0.0657011361276,-0.0103406447965,0.00434292052948,-0.0018337076978,0.000481423558707,
-0.0280513489489,0.0620186537724,0.0947074765439,0.11397626339,0.135493920908,0.130024162091,0.143055964842,0.058298441148,-0.0082199356897,0.00283415399685,-0.000692385348154,
-0.0276639114409,0.0633911326754,0.0919468888988,0.118552622171,0.128491604301,0.140643080926,0.125275599007,0.126886407111,0.0465725527319,-0.0054640961847,0.00111629970782,
-0.0279627824951,0.0623389998015,0.0940365721759,0.115164204483,0.133480105172,0.133608996624,0.135239708937,0.111334061022,0.101250732443,0.0313950923662,-0.00227995563674,
-0.027751534665,0.0630800600574,0.0925749694016,0.117506161954,0.130099783138,0.138214944552,0.129129530102,0.119497261347,0.0894095017147,0.0679334403623,0.013917141779};
+initializer_list<double> la={0.0139171417790434166206884301106371,-0.00514325562983490553945482672729184,0.00373560374914085018725131470439065,-0.00290037905138315003781828070850379,0.00227274215264998537669600797675868,-0.00175240116264082742702346957094253,0.00130248911731822927183376576527350,-0.000909279657711640651057229985874300,0.000570136062283444316355989598062838,-0.000289875324978482038437992853765253,0.0000827488930845835189972911298261979,
+0.0301142391948244556850291647703452,0.0313950923662261561586735748059850,-0.00810562697907984411509038761874716,0.00526282127353501507194118571645874,-0.00383743668169242759363413819373032,0.00285354676447749860209788071218239,-0.00207783291714634649529155042045045,0.00143267781287657313277759445234306,-0.000891466711988145401994499020386626,0.000451184930916069171735273863699948,-0.000128498936996653753822983719663434,
+0.0267179838502661811451222492270490,0.0682542809171542158094247997671962,0.0465725527319335628565244103579140,-0.0102895248152872145428450144855953,0.00612667324766953732872518254748621,-0.00418053753704864073577283170383163,0.00291066795410457775012630543616084,-0.00195573987509097941918238015793114,0.00119821656507352216046396088240308,-0.000600947942995045366467377875974433,0.000170372117195620967172569989546359,
+0.0285266689062404033539906138636098,0.0599560307356048885110634313934399,0.101365041153570591950231026008482,0.0582984411479976199796309262107938,-0.0116536925866713892045122531529432,0.00643838129780483330857548404618236,-0.00409164865278154504328097688232838,0.00262061890572086323919627935494752,-0.00156237108006700551652476566069921,0.000771530960015176748020373869400951,-0.000217065390840345289252973780190160,
+0.0273528599993796140716452683309802,0.0646238924302517439343240111126972,0.0888021849343891269062705363844844,0.126937527092484729329395593358849,0.0657011361275616655451722174726273,-0.0121240615804220011533673101424194,0.00621926257425001908979939369156868,-0.00363063338386324112523093675663918,0.00206324037554684363328318467300617,-0.000992886275645834511167361281996532,0.000275899729894848114109410456411519,
+0.0281917210618671959125369757792893,0.0614771890632044979378652513022305,0.0959986109028957617417890032486379,0.111095774316370167736965659831943,0.143076752307042779412913905065101,0.0682312716944751576786208820840855,-0.0116744800519194483225694701198462,0.00550110797962507222229619258964432,-0.00285350543902863602874018253281001,0.00131299566924781437948189830973959,-0.000357437503780362671160115558014999,
+0.0275583838281919851272674497648628,0.0637830710080981468285145108939666,0.0910818650883202820797656360428218,0.120227515679858481084492789178227,0.125183009680873312000545041253686,0.148586604969372316510609074310591,0.0657011361275616655451722174726273,-0.0103406447964894893701337409372614,0.00434292052947799880677828433134351,-0.00183370769779943161697686150072715,0.000481423558707219169731591890294133,
+0.0280513489489271785306298340014644,0.0620186537724371355693267757425691,0.0947074765439341312295735863765272,0.113976263390274376720065573066640,0.135493920907904876133625411827583,0.130024162091145482048666280121989,0.143055964841794720294856688098198,0.0582984411479976199796309262107938,-0.00821993568970346623718220529265396,0.00283415399684742380628371821853018,-0.000692385348153570112613753642335545,
+0.0276639114408912122742042902317279,0.0633911326754473576838145274879445,0.0919468888987936035525848598334249,0.118552622171086219378444232579519,0.128491604301018753340218129509094,0.140643080925998956093014595872003,0.125275599007453793761619252397768,0.126886407111282454502106866907183,0.0465725527319335628565244103579140,-0.00546409618470190349207765015522619,0.00111629970782065209625461099422524,
+0.0279627824950834869951998439409377,0.0623389998015362431456118757482701,0.0940365721758552711150433197362146,0.115164204483118666826484257969245,0.133480105172269677585635985365705,0.133608996624472816755143883455989,0.135239708936815758683978573138985,0.111334061022460224887320666705129,0.101250732442946969828139208334575,0.0313950923662261561586735748059850,-0.00227995563673762244365230454907090,
+0.0277515346650022497223795690914481,0.0630800600574307943557851424657353,0.0925749694015836813966928311177651,0.117506161953706880610319082407462,0.130099783137805101818510669179981,0.138214944551591142784265233739114,0.129129530102473345713648426968496,0.119497261347378389997080133130091,0.0894095017147262755257975060114373,0.0679334403622872178568019763392619,0.0139171417790434166206884301106371};
 
 initializer_list<double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041};
 
@@ -155,18 +155,18 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<12,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0117938340966,-0.00437990215768,0.00321056964126,-0.00252868076292,0.00202324519895,0.00124774475193,-0.00093049983663,0.000650624788775,-0.000408237882558,0.00020761510848,-5.92710487057e-05,-0.00160735902089,
-0.0255198232326,0.0267348314988,-0.00696570366256,0.00458737722346,-0.00341487831326,-0.00198873604147,0.00146425936526,-0.00101552961889,0.000633880729667,-0.000321341337252,9.15875660364e-05,0.00261580117231,
-0.0226415082465,0.0581230577547,0.0400195821358,-0.00896632804601,0.00544880489817,0.00278156916562,-0.00199435710193,0.00136062625077,-0.000840553839985,0.000423460056141,-0.00012030834911,-0.00382839826778,
-0.0241748261227,0.0510550484294,0.0871038538724,0.0507918566808,-0.0103577470217,-0.00390204370621,0.0026638869907,-0.00176593366081,0.00107205559232,-0.000534534766346,0.000151074627301,0.00588867969619,
-0.0231788873634,0.0550336735249,0.0763035605835,0.110596236161,0.0583731341346,0.00591690882966,-0.00367597498519,0.00231791162581,-0.0013672957437,0.000670629185517,-0.000188000196715,-0.0110754199818,
-0.0233514110135,0.0543232717216,0.0782519909929,0.104765642235,0.11120113308,0.0622867614534,-0.0103795246551,0.00480193492467,-0.00245976665589,0.00112275870417,-0.000304349193693,0.135655440636,
-0.02377566839,0.0527990338121,0.0814064600154,0.0992658017357,0.120422243254,0.135648942888,0.0583731341346,-0.00901252279942,0.00373560368819,-0.00156401052723,0.000408780829862,0.118656614077,
-0.023436593566,0.054004197764,0.0789671086794,0.103349647022,0.114082381278,0.118684843211,0.127104015291,0.0507918566808,-0.00706468960073,0.00241461456827,-0.000587157929441,0.128475566613,
-0.0237079765424,0.0530462029415,0.0808797181117,0.100223087111,0.118740625371,0.128401921174,0.111297463371,0.110550041408,0.0400195821358,-0.00465339475702,0.000946159946801,0.121791953741,
-0.0234960806272,0.0537910043349,0.079405283542,0.10259924298,0.115282008904,0.121957721734,0.120161146582,0.0969963361381,0.0870048679342,0.0267348314988,-0.00193215503937,0.126562258948,
-0.023646939242,0.0532620478892,0.0804474021542,0.100933088573,0.117676768106,0.126180881928,0.11472302307,0.104112394124,0.0768285946304,0.0578495651553,0.0117938340966,0.123325778155,
-0.0238920173869,0.0523469042935,0.0824989309276,0.0967817784369,0.127125792924,-0.0110819177291,0.00554513518951,-0.00318192887322,0.00178717327876,-0.000853608723971,0.000236257179789,0.0622867614534};
+initializer_list<double> la={0.0117938340966279567986539903712543,-0.00437990215767931650940188692918276,0.00321056964125654262004469232623711,-0.00252868076291527559325483047108311,0.00202324519894856845571760672436639,0.00124774475192659582311909076184889,-0.000930499836629974148333740147760258,0.000650624788775465133900270947845369,-0.000408237882558168112866492596697974,0.000207615108480287514624040502392411,-0.0000592710487056506905538129963004732,-0.00160735902088665663692347356756028,
+0.0255198232326244639441836509717834,0.0267348314988296077400636795484991,-0.00696570366255593528084233870896311,0.00458737722346434400703031480933751,-0.00341487831325726315216580833366991,-0.00198873604147400184383034336299982,0.00146425936525797332056119445694672,-0.00101552961889071285353932174117125,0.000633880729666708085426064346671315,-0.000321341337251878490974152992793925,0.0000915875660363567404988113849493164,0.00261580117231290944435531656186262,
+0.0226415082464546978695105146203535,0.0581230577546837157157340098137834,0.0400195821358365565836631323858398,-0.00896632804601375189900412174147714,0.00544880489816575571543655014114527,0.00278156916561874812407426225463822,-0.00199435710192794323160270551931218,0.00136062625076553272030386945228062,-0.000840553839984532063258567090571879,0.000423460056141347174662230642939509,-0.000120308349110379280703786321047807,-0.00382839826778209094726230524498038,
+0.0241748261226971991223159086687208,0.0510550484293886763756662871780821,0.0871038538724015915546922006176071,0.0507918566807664804372661139524496,-0.0103577470216968143616942058302073,-0.00390204370620793343508578200225354,0.00266388699069817929130618710749775,-0.00176593366081374114507112195757116,0.00107205559231517493201514834145065,-0.000534534766345622524447744620771830,0.000151074627300977163206610358729114,0.00588867969618710894147918871599956,
+0.0231788873633936492342183449770824,0.0550336735248898118758263652719249,0.0763035605834845887509628990891626,0.110596236160954295848669502387033,0.0583731341345887021902124747312195,0.00591690882965931097780777409955512,-0.00367597498519267301626859146921164,0.00231791162580606885793696566969272,-0.00136729574370243207975475896064002,0.000670629185517022286304630351349835,-0.000188000196714650100120473944846696,-0.0110754199817737917021409005241805,
+0.0233514110134668871562570409586137,0.0543232717216298316487578493835701,0.0782519909929121000782088530511676,0.104765642234753235587278744603025,0.111201133079663467133798800192759,0.0622867614533506962501406090107378,-0.0103795246551256818945668362263593,0.00480193492467387405421263983863473,-0.00245976665588796403560160874505178,0.00112275870416866186970650353585504,-0.000304349193692679899622505931686133,0.135655440635822029787650595060661,
+0.0237756683899705636974284546873552,0.0527990338121421931938227287456483,0.0814064600153755452470810237323196,0.0992658017357268920165952622352065,0.120422243254370077396693540931651,0.135648942888475184202422118545656,0.0583731341345887021902124747312195,-0.00901252279942133497413727448213377,0.00373560368818852441636336568251690,-0.00156401052723059639569900617492683,0.000408780829862264363089635765426139,0.118656614077042081522473443921920,
+0.0234365935659549364341013703837794,0.0540041977640048380045751037177699,0.0789671086793579382353111164302289,0.103349647022346702019603349862470,0.114082381278479225089118762354941,0.118684843210514283558802029305476,0.127104015290874218742119155292646,0.0507918566807664804372661139524496,-0.00706468960072847838736593584592755,0.00241461456827053910446107191891601,-0.000587157929441285525007927926212295,0.128475566612909325935367000023729,
+0.0237079765423662928780117670635563,0.0530462029415178683054651284540586,0.0808797181116576452305848318622514,0.100223087110767428154228358452619,0.118740625371105347612027654981751,0.128401921174483483447543523266456,0.111297463371011648664988399321294,0.110550041407546712773536349646376,0.0400195821358365565836631323858398,-0.00465339475702450023560665071678529,0.000946159946801215727797466122154982,0.121791953741082644376206955766837,
+0.0234960806272195568568091693575592,0.0537910043349110939711015120897920,0.0794052835420064050819002004250082,0.102599242980423673728071549646070,0.115282008903919431059863755005492,0.121957721734388483055925901459613,0.120161146582434667532590757796109,0.0969963361380686168675019130955617,0.0870048679342290484481686034806426,0.0267348314988296077400636795484991,-0.00193215503936855034687567022927485,0.126562258948175394344111561384475,
+0.0236469392419615642878617937388090,0.0532620478891789279655033185946057,0.0804474021542312812801927573683775,0.100933088572757495740631956957054,0.117676768105807378528758689610199,0.126180881927588049137204691589036,0.114723023070228835924707342738073,0.104112394124448236467787058375982,0.0768285946304165705472815724454424,0.0578495651553385319895292460261809,0.0117938340966279567986539903712543,0.123325778154774796677162127259627,
+0.0238920173869485934969304866741947,0.0523469042934905536104208555611431,0.0824989309275610772029278735167313,0.0967817784368590868203195880662645,0.127125792924303086274991785688798,-0.0110819177291206372873693770391854,0.00554513518951393724662614926968001,-0.00318192887322027471274651669812568,0.00178717327876101308911741172051196,-0.000853608723970616168630490286571955,0.000236257179789026441050939783894818,0.0622867614533506962501406090107378};
 
 initializer_list<double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800};
 
@@ -176,19 +176,19 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<13,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0101210011913,-0.00377307158533,0.00278561575606,-0.00221827038405,0.00180306469115,-0.00146428618398,0.00117219434523,-0.000913582925477,0.000682707775015,-0.000477846825328,0.000299962625259,-0.000152576299212,4.35604600184e-05,
-0.0219001283175,0.0230303749594,-0.00604331982545,0.00402367675567,-0.00304249472623,0.00238203498777,-0.00186724640081,0.00143647464828,-0.00106442244601,0.000740852231417,-0.000463345539788,0.000235139088197,-6.70516615042e-05,
-0.0194299477196,0.0500695755433,0.0347183775549,-0.00786303206731,0.00485274615855,-0.00348400333661,0.00260906242968,-0.00195372076841,0.00142329508753,-0.000979733532988,0.00060835505903,-0.000307359452503,8.74442385103e-05,
-0.0207461084445,0.0439800566806,0.0755663734122,0.0445364951905,-0.0092209168426,0.00535465088569,-0.00365522679985,0.00260442900235,-0.00184200989476,0.00124460812211,-0.000763750235757,0.000383103892798,-0.000108591577935,
-0.0198907528983,0.0474094387268,0.0661938972977,0.0969774293977,0.0519540118842,-0.0100633070333,0.00553442491475,-0.00358522008286,0.00240894627536,-0.00157902463821,0.000951119931435,-0.000471841291131,0.000132996200941,
-0.0205039757595,0.0450910064519,0.0715749421922,0.0848574338709,0.113150057093,0.0565707950657,-0.0103514560922,0.00539400389969,-0.00329262769908,0.0020503890674,-0.00119902884865,0.000584799095209,-0.000163447833222,
-0.0200379395811,0.0468004290851,0.0678786934545,0.0918730747241,0.0989622717612,0.123214025135,0.0581378883077,-0.0100724350036,0.00494575200722,-0.00280008434311,0.0015580616554,-0.000739679166273,0.000204062801555,
-0.0204054502159,0.0454759508237,0.0706357839585,0.0870226013136,0.107200651468,0.107747586232,0.126627232708,0.0565707950657,-0.00924203332466,0.00421555651003,-0.00213818708227,0.000969743466943,-0.000261973376815,
-0.0201090061817,0.04653259121,0.0684856351785,0.0906520150192,0.101499077493,0.116726810214,0.110741351701,0.123204897165,0.0519540118842,-0.00790443901671,0.00324285781214,-0.00134868880796,0.000351249484407,
-0.0203505939606,0.0456776460261,0.0702005053457,0.0878283822589,0.105750033663,0.110537161129,0.119931003415,0.107786939246,0.113128940611,0.0445364951905,-0.00612961830229,0.00208069323826,-0.000504106061862,
-0.0201545581441,0.0463681093714,0.0688284000509,0.090052723914,0.102484728681,0.1150953109,0.113666714186,0.116625593468,0.0990552776099,0.0969360224483,0.0347183775549,-0.0040088256244,0.000812054663012,
-0.0203090540442,0.0458256108307,0.0699001006497,0.0883321381496,0.104972446214,0.111705115483,0.118143023016,0.110759555144,0.106950518495,0.0850493136253,0.0754800749353,0.0230303749594,-0.00165812593487,
-0.0201984419226,0.0462133262181,0.0691367924846,0.0895508372063,0.103225315993,0.114055173057,0.11510358227,0.114605876315,0.102104959077,0.091291260765,0.0666511393538,0.0498338215042,0.0101210011913};
+initializer_list<double> la={0.0101210011913289698800053980502465,-0.00377307158532573117639653956478696,0.00278561575606280540506391769715011,-0.00221827038404612727470909369006428,0.00180306469115291924767648064980046,-0.00146428618397597206373219195398718,0.00117219434523376612789533432940761,-0.000913582925476946914279833786076516,0.000682707775014527070994806526617237,-0.000477846825328057044954904151545178,0.000299962625259445461030372797434857,-0.000152576299212045336495614490534017,0.0000435604600183718814871431827825288,
+0.0219001283175295116522258243792181,0.0230303749594321119786054439884493,-0.00604331982544823445948205359739159,0.00402367675567341024867616113409459,-0.00304249472622634548710370846496858,0.00238203498776763745077474812162596,-0.00186724640081131399249109864113950,0.00143647464828385926714290321692637,-0.00106442244601130699290888262870222,0.000740852231417186149520785772376544,-0.000463345539787940887382989363911043,0.000235139088196600369947814289646073,-0.0000670516615041579007988664565837295,
+0.0194299477196462080138986265725847,0.0500695755432635923426235131209137,0.0347183775549468096159004442172179,-0.00786303206730868570634754109820751,0.00485274615855356234460137723834130,-0.00348400333660768447587493382716106,0.00260906242967983428705086502545689,-0.00195372076841097163727673691924709,0.00142329508753345627404375086579584,-0.000979733532987650877168571875648996,0.000608355059029741647181307412082681,-0.000307359452503456643979932083820092,0.0000874442385102884182445865602618302,
+0.0207461084445201329864662811434272,0.0439800566806027462386107262155192,0.0755663734121840834838611362790007,0.0445364951904864345700116729990245,-0.00922091684260183471157923038803508,0.00535465088568774835817836341051524,-0.00365522679985131663224119457647232,0.00260442900234894375524301082650519,-0.00184200989476170492739286362165069,0.00124460812210767416235581390797846,-0.000763750235756611259863351602996257,0.000383103892798337037853784379416009,-0.000108591577934743383496452469989929,
+0.0198907528982510605465179672081930,0.0474094387268283867543203296582884,0.0661938972977494572894970911918178,0.0969774293976857866965958632022815,0.0519540118842221255781308048265132,-0.0100633070332503760077136218506629,0.00553442491474951858506263543603369,-0.00358522008285720277410984531537971,0.00240894627535956901766224577323685,-0.00157902463820694369584986417058936,0.000951119931434866800772660663683767,-0.000471841291130799781952598265558731,0.000132996200941124552109905578322486,
+0.0205039757594727670060681545998433,0.0450910064519209141654412218524936,0.0715749421921594625399608006277203,0.0848574338709379334336662073674475,0.113150057093106559270427818381431,0.0565707950657243096030225465099442,-0.0103514560922495229752504808065757,0.00539400389969417161174279062738912,-0.00329262769907881380106091466035036,0.00205038906740336088057757139497844,-0.00119902884864579980320098025955255,0.000584799095209111448818836774843047,-0.000163447833221850412977632958606346,
+0.0200379395811026762773049698442838,0.0468004290851373722985012660116026,0.0678786934544959035977382705879556,0.0918730747240793403196288054251039,0.0989622717612276794983509717814398,0.123214025135056194245784393996810,0.0581378883077184775486473788172090,-0.0100724350036075750397393009769219,0.00494575200721657165791063787158657,-0.00280008434310647117960545942705492,0.00155806165539771563406261784648011,-0.000739679166273148341290378034704055,0.000204062801555263482705826256209194,
+0.0204054502158797901729884290590994,0.0454759508236551125083920512020555,0.0706357839585394190350018686939883,0.0870226013135695082594457746030706,0.107200651467523064957322524313377,0.107747586231754447594302302392499,0.126627232707686478072545238440994,0.0565707950657243096030225465099442,-0.00924203332466230811416620872840460,0.00421555651003493570635713863060150,-0.00213818708226584330815991219328461,0.000969743466943309791769666124404934,-0.000261973376814827246057358499350264,
+0.0201090061817168152079008905221705,0.0465325912099950237391634862424573,0.0684856351784587524310282277707520,0.0906520150191798128358732101686384,0.101499077493084682138599363879790,0.116726810214305821980154938335268,0.110741351700687436512232122198384,0.123204897164698995213758714870551,0.0519540118842221255781308048265132,-0.00790443901671291755657251720423246,0.00324285781214416194230379724261791,-0.00134868880796416279710944168138988,0.000351249484406879213492828892300010,
+0.0203505939605926831435072485704830,0.0456776460260658869193571035974826,0.0702005053456502304916642400374320,0.0878283822588651949776675320900705,0.105750033663205956083654473274677,0.110537161129099675450802082193383,0.119931003415288271729535952210890,0.107786939245760870847866729609373,0.113128940611046085867840840041061,0.0445364951904864345700116729990245,-0.00612961830229046425206024784456496,0.00208069323826147771860016176137939,-0.000504106061862193226455485042934161,
+0.0201545581441476513417662095402312,0.0463681093713676806011908200607187,0.0688284000508638775846195810223531,0.0900527239139605200171919178736980,0.102484728680910794882217858787231,0.115095310899859590843321829939135,0.113666714185757120810243892608961,0.116625593468056303681920026847049,0.0990552776098906888116602324146851,0.0969360224482815548463708870962565,0.0347183775549468096159004442172179,-0.00400882562439936838541262514401512,0.000812054663011731746112169527908313,
+0.0203090540441620976608096625570768,0.0458256108306676235872630736872525,0.0699001006496815601191838777983468,0.0883321381495556829905025602256725,0.104972446214455558149170492281729,0.111705115483164759938902189802962,0.118143023016248269089785856275557,0.110759555143680981755270344898262,0.106950518494670596643365318117995,0.0850493136252994588913471848639544,0.0754800749353418536912829420318273,0.0230303749594321119786054439884493,-0.00165812593487157189221502827872504,
+0.0201984419226395678785236529177105,0.0462133262180762692937065024674326,0.0691367924846341737707705156370009,0.0895508372063009261849782501495942,0.103225315993429724085266803126409,0.114055173056925566120324926805965,0.115103582270203188969399423305010,0.114605876315424591269777284973875,0.102104959077291331908585129003226,0.0912912607650189964147324396881133,0.0666511393538308138267369707372856,0.0498338215041899551336074275416855,0.0101210011913289698800053980502465};
 
 initializer_list<double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934};
 
@@ -198,20 +198,20 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<14,double>(double* a,double* b)
 {
-initializer_list<double> la={0.00877986508294,-0.00328311623043,0.00243769977191,-0.00195809929678,0.00161116775848,-0.0013305215627,0.00108963888466,-0.00087630200574,0.00068469369104,-0.000512348412843,0.000358848231298,-0.000225331048393,0.000114628208601,-3.27274204462e-05,
-0.0189981535902,0.0200395217899,-0.00528828692878,0.00355141173897,-0.00271822648689,0.00216386043522,-0.00173506996416,0.00137711257618,-0.00106673647746,0.000793568026139,-0.000553593219336,0.00034668128127,-0.000176059960672,5.02217676033e-05,
-0.016855223028,0.0435673907696,0.030379642672,-0.00693923175519,0.0043344047055,-0.00316351532296,0.00242277289054,-0.00187121355052,0.00142453006384,-0.00104760430312,0.000725153252626,-0.000451771845981,0.000228683634142,-6.51217733285e-05,
-0.0179971729466,0.0382681743916,0.0661233345537,0.0393007917895,-0.00823373536491,0.00485948742726,-0.00339128378072,0.00249119959913,-0.00184021037875,0.00132745819948,-0.000907277121182,0.000560545874372,-0.000282277859466,8.01673175676e-05,
-0.0172547617984,0.0412533979918,0.0579204623739,0.0855778714769,0.0463845993695,-0.00912812000307,0.00512982390659,-0.00342399508689,0.0024010077122,-0.00167859385926,0.00112473016941,-0.000686129552117,0.000342844909038,-9.69793854289e-05,
-0.0177874472666,0.0392337598959,0.0626327197422,0.0748787154812,0.101022753501,0.0512996159303,-0.00958636975953,0.00514289425654,-0.00327298200286,0.00217096714652,-0.00140979076807,0.000843606984772,-0.000416706606796,0.000117184468567,
-0.0173819598205,0.040725133888,0.059391606126,0.0810781747136,0.0883477443626,0.11173735847,0.0538159633658,-0.00958944502747,0.00490242083631,-0.00295118084701,0.00181927648653,-0.0010563185247,0.000512797239918,-0.000142965263485,
-0.0177026954294,0.03956624634,0.0618156038686,0.0767823070926,0.095720379586,0.0976968110243,0.117221371759,0.0538159633658,-0.00913812660915,0.00442145437638,-0.00247659113448,0.00136767921796,-0.000646090308141,0.000177770345416,
-0.0174425456973,0.0404957501867,0.0599156783592,0.0800113743472,0.0905982315925,0.105872213864,0.102489032475,0.117218296491,0.0512996159303,-0.00825355476177,0.00372286809792,-0.00187343439821,0.000845283684014,-0.000227717100774,
-0.0176567095513,0.0397361986708,0.0614454148961,0.0774768534097,0.0944477925982,0.100198224148,0.111055921818,0.102502102825,0.111727351864,0.0463845993695,-0.00697628789782,0.0028388229701,-0.00117435441191,0.000304968367469,
-0.0174795628483,0.0403613214393,0.0601987394696,0.0795088607003,0.0914417405395,0.104439442239,0.105140727132,0.111023210512,0.0977397444334,0.101002934104,0.0393007917895,-0.00536404920974,0.00181086918832,-0.000437442780714,
-0.0176248519392,0.0398503599457,0.0612110571899,0.0778764303265,0.0938168030421,0.101174701797,0.109503140282,0.105209153841,0.105762747184,0.0884347940335,0.0855408153343,0.030379642672,-0.00348834718976,0.000704507137926,
-0.0175095083983,0.0402551035406,0.0604126040627,0.0791551767984,0.0919756307128,0.103665968338,0.106254814155,0.109366996696,0.100435371425,0.0954874252259,0.0750501718401,0.0660475722727,0.0200395217899,-0.00143842342432,
-0.0175924575863,0.0399644153713,0.0609846163923,0.0782427353478,0.0932815471518,0.10191453817,0.108508228737,0.106542287847,0.103929753423,0.0911580309805,0.0805596828759,0.058321585572,0.0433621598103,0.00877986508294};
+initializer_list<double> la={0.00877986508293796575795821903454795,-0.00328311623042934086798688316216252,0.00243769977190523648369753867532496,-0.00195809929677580446849837789111997,0.00161116775847946349648444265711885,-0.00133052156270291506772693351446155,0.00108963888466220974785039375877712,-0.000876302005740451815114376127002123,0.000684693691039925453930883284840597,-0.000512348412842921048968187481164774,0.000358848231298344463716262218571774,-0.000225331048392672084870452601877430,0.000114628208600992289517695941405055,-0.0000327274204462017607888581448243350,
+0.0189981535901935692032565753457345,0.0200395217899400524514083192657136,-0.00528828692877905772827154588731698,0.00355141173896972234311116783155499,-0.00271822648688944300089230331346735,0.00216386043522498030367910884029325,-0.00173506996416364108314035850590390,0.00137711257617749357667294331528682,-0.00106673647746380315042748249637517,0.000793568026138729677545338924362882,-0.000553593219336437327016306954809997,0.000346681281269539277437669257943583,-0.000176059960671760509587943072474205,0.0000502217676032972980292477605208439,
+0.0168552230279503139456460219204252,0.0435673907696408731646233759168512,0.0303796426719757961723537022681192,-0.00693923175519035119345305019603769,0.00433440470550090540006755914465584,-0.00316351532295943580063171436089832,0.00242277289054359102627535965473214,-0.00187121355051888424772368728276770,0.00142453006383964222688942439349999,-0.00104760430312298289632470226583768,0.000725153252625853259256047396927371,-0.000451771845981418753779397766857358,0.000228683634142081114593321789361646,-0.0000651217733284800126896319373713546,
+0.0179971729465900660094843746827399,0.0382681743915636711701172340552138,0.0661233345536871905749021814089698,0.0393007917895483836424004846559605,-0.00823373536491335826742210350287508,0.00485948742725785845997735856907124,-0.00339128378072244485517029851665092,0.00249119959912946624822510381855310,-0.00184021037875169195812940290871736,0.00132745819947615736530485315118822,-0.000907277121182312713726071572431614,0.000560545874372256964826230090779137,-0.000282277859465565741926729500486366,0.0000801673175675880271268840590184610,
+0.0172547617984066298930832342738616,0.0412533979917853903899376777087094,0.0579204623738544047817452791920076,0.0855778714769197311989090537154116,0.0463845993694844534354291475312893,-0.00912812000306882147124445709482786,0.00512982390658682692428320009930379,-0.00342399508689323368479917773962021,0.00240100771220400841219767118394390,-0.00167859385926087166843659137677713,0.00112473016941185443769237507083812,-0.000686129552116775559003003408177509,0.000342844909038254845086894540875276,-0.0000969793854288979175266629724320737,
+0.0177874472666498987219915789897631,0.0392337598958662474135725228744003,0.0626327197421615393472331900914912,0.0748787154811760310330609299933730,0.101022753500743341641028589080367,0.0512996159303239009914810164153045,-0.00958636975953160870951134850919731,0.00514289425654003773414845707324228,-0.00327298200285945016047811109921003,0.00217096714651606515875789781947959,-0.00140979076807348690067732075971781,0.000843606984771863475085728612171211,-0.000416706606795931371592766062971839,0.000117184468566671408063723397267082,
+0.0173819598204594481529414082955742,0.0407251338880214787650397745445252,0.0593916061259882977498028646063490,0.0810781747135810532747494681898616,0.0883477443625841108910902653689403,0.111737358469799304747462009589509,0.0538159633657894475489691108290650,-0.00958944502746706154293216025288384,0.00490242083631428848742035750691602,-0.00295118084701215774738375533809831,0.00181927648653469995209335198496095,-0.00105631852469745200915360223396650,0.000512797239918080511166826616528849,-0.000142965263485369814388244817198644,
+0.0177026954293613013303046828862945,0.0395662463399620243916498119148983,0.0618156038686490443538610067702048,0.0767823070925620673327076173269601,0.0957203795859810646182420504006768,0.0976968110243335134955416753236930,0.117221371759045956640870381911014,0.0538159633657894475489691108290650,-0.00913812660915150276449997675889980,0.00442145437638479597976802969363824,-0.00247659113448428598994849887794055,0.00136767921796329459490453992988933,-0.000646090308141373862223136013098015,0.000177770345416483362975029773521681,
+0.0174425456973092601078527146718288,0.0404957501866760362744094045943990,0.0599156783591797288696216759240671,0.0800113743471702541854782900716389,0.0905982315924528417121003972430989,0.105872213863507252143440143929819,0.102489032475038857363789764584888,0.117218296491110503807449570167327,0.0512996159303239009914810164153045,-0.00825355476177443477017029401778844,0.00372286809792073625174003931854807,-0.00187343439820994700252578555525291,0.000845283684013857489244115657026879,-0.000227717100773967206075140920667221,
+0.0176567095513048294334431010415280,0.0397361986708418500577297439905519,0.0614454148960683679037104079444158,0.0774768534096849128471085942410829,0.0944477925982297785392948864393556,0.100198224148443793570764361646665,0.111055921818472128782737399397750,0.102502102824992068173655021558826,0.111727351863716623454206489925437,0.0463845993694844534354291475312893,-0.00697628789782296391410808440349049,0.00283882297009718756296212534423074,-0.00117435441190528548712103917728224,0.000304968367469301622833203795234327,
+0.0174795628483083434887895540100774,0.0403613214393456706447433680319135,0.0601987394695793353798811744454592,0.0795088607002790799985270408843527,0.0914417405394927495055534419113903,0.104439442239399493941091435739326,0.105140727132449428849713117839577,0.111023210512301339953108520174781,0.0977397444333899435229846742615378,0.101002934103882265138280398565454,0.0393007917895483836424004846559605,-0.00536404920973559823019477687273153,0.00181086918831643373269940447621332,-0.000437442780714134493567936613643993,
+0.0176248519392044115286060700064672,0.0398503599457380237882233167420655,0.0612110571899330110984868023030957,0.0778764303264709140255449219149937,0.0938168030420918897671829973284162,0.101174701796808159756072608437109,0.109503140282097779345661908940898,0.105209153841035304071662862003398,0.105762747183607237783593747191507,0.0884347940334680014707907359179227,0.0855408153342871184782540195079588,0.0303796426719757961723537022681192,-0.00348834718976076826180673738542408,0.000704507137925617570270416148670639,
+0.0175095083982726342178871903085750,0.0402551035405518654124045816039014,0.0604126040626820530672697352782947,0.0791551767984332046118172762667311,0.0919756307128301771933129561382156,0.103665968338111605133389515326984,0.106254814155401401521265278342843,0.109366996695742536181078580164034,0.100435371425422821679282923990316,0.0954874252258583498717505983760459,0.0750501718401270449416898014803661,0.0660475722727306500729789504235553,0.0200395217899400524514083192657136,-0.00143842342431763768734013727663862,
+0.0175924575863221332767052962139202,0.0399644153712791126132989425900221,0.0609846163923442644295778571381157,0.0782427353477984228210847070933493,0.0932815471518118279198264825437433,0.101914538169607876529031149545768,0.108508228737319346913052597785132,0.106542287846916685350087827899353,0.103929753423350717050688966345071,0.0911580309804894433743738524054597,0.0805596828758725717532993472030411,0.0583215855720463558610098658609134,0.0433621598103094457708035216935897,0.00877986508293796575795821903454795};
 
 initializer_list<double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379};
 
@@ -221,21 +221,21 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<15,double>(double* a,double* b)
 {
-initializer_list<double> la={0.00768831049903,-0.00288207652296,0.00214977135689,-0.0017388496538,0.00144470413916,-0.00120875124594,-0.000829198279957,0.00066882097553,-0.000523450351173,0.000392046730692,-0.000274715621755,0.000172538127707,-8.77790602646e-05,2.50623437545e-05,0.00100730755285,
-0.016636222751,0.017591511872,-0.00466351386567,0.00315354205167,-0.00243709364542,0.00196545995212,0.00130260473646,-0.00104148556214,0.000810228194456,-0.000604288995042,0.000422194068522,-0.000264629686031,0.000134457272942,-3.83635400719e-05,-0.00160354180515,
-0.0147596657936,0.0382453177464,0.0267898051168,-0.0061612578219,0.00388540778486,-0.00287258727159,-0.00176882660434,0.00138957805663,-0.00106833441026,0.000790333943392,-0.000549070190929,0.000342837152367,-0.000173768948419,4.95161011044e-05,0.00223809184709,
-0.0157597621062,0.033593131848,0.0583100851091,0.0348926694815,-0.00737940946174,0.00441096801813,0.00235280924474,-0.00179283158916,0.00135144263633,-0.00098660966734,0.000679266000451,-0.000421563716076,0.000212853647458,-6.05313101683e-05,-0.00313090802751,
-0.0151094077412,0.0362144152536,0.0510754948902,0.0759798064004,0.0415673014542,-0.00828277336541,-0.00323039674395,0.00233558196615,-0.00170522856069,0.00121948195415,-0.000828185709088,0.000509364129494,-0.000255738444847,7.25131747848e-05,0.00473286955543,
-0.0155763030989,0.0344401095552,0.0552331478313,0.0664782993761,0.0905323400785,0.0465402500039,0.00484679298141,-0.00317822423571,0.00219973318685,-0.00152302038826,0.0010132184771,-0.000614961686883,0.000306254025293,-8.64724368757e-05,-0.0088394434056,
-0.0155025009303,0.0347305608049,0.0545152787351,0.0681643199524,0.0857860006893,0.0886264983356,0.0506445604814,-0.00884395744971,0.0044540016722,-0.00265139778085,0.00162101901072,-0.00093566850152,0.000452462939123,-0.000125879932237,0.108059700113,
-0.0152729660096,0.0355523462959,0.0528291945368,0.0710463622321,0.0811775780039,0.0960621911493,0.110317896557,0.0496078713318,-0.00829283528899,0.003965754028,-0.00220218558161,0.00120863973412,-0.000568634048294,0.000156114201768,0.0944637878374,
-0.0154630934349,0.0348767697188,0.0541945719205,0.068772120486,0.0846576232968,0.0908807668209,0.0964423279814,0.108055186069,0.0465402500039,-0.00739773717005,0.00330703958696,-0.00165353759768,0.000742914188875,-0.00019968210085,0.102393966899,
-0.0153041078233,0.0354387621889,0.0530702461041,0.0706135246722,0.0819151209543,0.0947857285685,0.104519517707,0.0944828731081,0.101363273373,0.0415673014542,-0.00619446743736,0.00250411534341,-0.00103139150959,0.000267213256875,0.0968801606974,
-0.0154371523082,0.0349701700966,0.0540011739497,0.0691060729626,0.0841212125758,0.0917290573714,0.098936311718,0.102346650691,0.0886695319897,0.0905140123702,0.0348926694815,-0.00473047487554,0.00158989189607,-0.000383141108096,0.101008574253,
-0.015327104897,0.0353567926925,0.0532367730812,0.070334409154,0.0823442689651,0.094148834418,0.103057947567,0.0969776508165,0.0959530872794,0.0792491951236,0.075946596785,0.0267898051168,-0.00306229400235,0.000616955204475,0.0978261646069,
-0.0154149845381,0.0350485664711,0.0538442399196,0.0693631448946,0.0837388919035,0.0922702718133,0.0999865162263,0.100819284469,0.0911150400557,0.0855716965539,0.0666317969114,0.0582431240993,0.017591511872,-0.00125960175292,0.100257228226,
-0.0153515586543,0.0352708028043,0.0534070721059,0.0700600545848,0.0827425561778,0.093603950359,0.102118319243,0.0982084351107,0.0942892512537,0.0816898987693,0.0715241886169,0.0514298388767,0.038065100267,0.00768831049903,0.098546921688,
-0.0152205067963,0.0357516577923,0.0523709704995,0.0719875245447,0.0791688488805,0.101373335297,-0.00902877559412,0.00475195482617,-0.0029816911415,0.00195702490455,-0.00126102326903,0.00075041569679,-0.000369322551827,0.000103654988414,0.0496078713318};
+initializer_list<double> la={0.00768831049902931708865709839430110,-0.00288207652296439580063546956640496,0.00214977135688850644287947195441230,-0.00173884965380298083558788216578044,0.00144470413915726138708869767716335,-0.00120875124593688546658128485877837,-0.000829198279957270056165475383330968,0.000668820975529917187940369682561850,-0.000523450351172725058136595675165461,0.000392046730691602014114395777496628,-0.000274715621754918118582794977518628,0.000172538127706577039763717164693461,-0.0000877790602645868752966820187805339,0.0000250623437545120994878446872165364,0.00100730755285335470627173001460784,
+0.0166362227509783404984961450415114,0.0175915118720270311773168541126668,-0.00466351386567139920910945192640114,0.00315354205167060177481027904195496,-0.00243709364541861248927066133075671,0.00196545995211755642319833638016242,0.00130260473646139385678049832465133,-0.00104148556214203561932207449711480,0.000810228194455859749132304352513766,-0.000604288995041522705160129596905066,0.000422194068522064401364461722620928,-0.000264629686030523967638173133559916,0.000134457272941865614537600421636876,-0.0000383635400718623012778712595397459,-0.00160354180515170935773759150854591,
+0.0147596657935835599495579379109451,0.0382453177464055777555361371553767,0.0267898051167929837529673866714673,-0.00616125782189826452701945604676958,0.00388540778485748995650797025288780,-0.00287258727158500903381330889237036,-0.00176882660434387913394492107044070,0.00138957805663066645209914875567541,-0.00106833441025736725849353335977303,0.000790333943391873816513817513980545,-0.000549070190929407584415480432400551,0.000342837152366744899109634183981507,-0.000173768948419062931349295607481126,0.0000495161011043642971631230913928475,0.00223809184708612148925667948641971,
+0.0157597621061541406071917707671331,0.0335931318479854185736211582802462,0.0583100851091268661824035925215984,0.0348926694815385786119511986277571,-0.00737940946173976384827296895623885,0.00441096801812590706555516092206085,0.00235280924473860437078970068009314,-0.00179283158915975579588626926021054,0.00135144263633254211230345864810751,-0.000986609667339780165472251839726848,0.000679266000451239434163117754700047,-0.000421563716075716397819728976520931,0.000212853647458382933211580026679770,-0.0000605313101682632124896863746739518,-0.00313090802751342417934286012797411,
+0.0151094077411841340124542675513073,0.0362144152536475076570565761402277,0.0510754948901790939145299350867404,0.0759798064004408833045786853890249,0.0415673014542484833883002151203022,-0.00828277336540880503184844886533352,-0.00323039674394951171049944257284989,0.00233558196615176564298443910486194,-0.00170522856069432033507452748948227,0.00121948195415413587624329276381805,-0.000828185709088390761404758010888066,0.000509364129493923943341426134730871,-0.000255738444847295467362462157213771,0.0000725131747848474283504476134943536,0.00473286955543412436973698556430448,
+0.0155763030989084244329229244789970,0.0344401095551792856353578159705013,0.0552331478312634465959558708141656,0.0664782993761123615184061906266898,0.0905323400785462625916172751622854,0.0465402500038905527567001404666057,0.00484679298140696426300794637272217,-0.00317822423571163094902465918219191,0.00219973318684740140886793973388926,-0.00152302038826284084666941590870139,0.00101321847710032825541555137730759,-0.000614961686883209505797295930784541,0.000306254025292725873549587624150750,-0.0000864724368757241202958614665039038,-0.00883944340559603285861769562965557,
+0.0155025009302956829281881053093292,0.0347305608049307295822013036311998,0.0545152787351061594892301878123766,0.0681643199523595268233594122982296,0.0857860006893487479412995056538336,0.0886264983355843505212644083221176,0.0506445604813903182201550499918798,-0.00884395744970946354663335487841734,0.00445400167219675499213587261109381,-0.00265139778085178116469907541322919,0.00162101901071763040054298495728458,-0.000935668501520191983295414469441973,0.000452462939123332772432404594133889,-0.000125879932237048750873908520726956,0.108059700113265251774692518100337,
+0.0152729660096446532887154273776346,0.0355523462958812372687600312419467,0.0528291945367959129786560876927991,0.0710463622321110828606712156060207,0.0811775780039442352442256266787681,0.0960621911492772619098913177211643,0.110317896556901683222398533330108,0.0496078713317778941140295816109598,-0.00829283528898673480148119897698628,0.00396575402799720493942905295023015,-0.00220218558160831593772050076925001,0.00120863973412445964285627893313716,-0.000568634048293621479668241547644885,0.000156114201767673815646320252275934,0.0944637878373826340839046195961349,
+0.0154630934349343582976100582551061,0.0348767697187613364810841206011829,0.0541945719204691770117320692737192,0.0687721204859768289684868458782066,0.0846576232967598076232698461493058,0.0908807668209337041045323411993222,0.0964423279813736721773021536110375,0.108055186069151821086676858851575,0.0465402500038905527567001404666057,-0.00739773717004929581501684492168096,0.00330703958696479570549620662882437,-0.00165353759767747909002109747123093,0.000742914188874776719275892254832318,-0.000199682100849790255608727690394819,0.102393966899267419177083822404112,
+0.0153041078232737867489637491751079,0.0354387621889013578219961703825474,0.0530702461040920435625933472082038,0.0706135246721655479853071552664022,0.0819151209543428309003571374767864,0.0947857285684754258484748084226937,0.104519517706730148150809542556610,0.0944828731081216638583221776576152,0.101363273373189910545248729798545,0.0415673014542484833883002151203022,-0.00619446743736372608067628813351075,0.00250411534340687359140483825619426,-0.00103139150959344530242286791489404,0.000267213256874500164859929237294932,0.0968801606974040225850747241170577,
+0.0154371523082268973898038831632762,0.0349701700965956794214221281986539,0.0540011739496616839037545023194556,0.0691060729626259177897392795008141,0.0841212125758367469420726820803313,0.0917290573714485634010968222851039,0.0989363117180420320695203993036665,0.102346650691069212407402023349894,0.0886695319896551984478451200111506,0.0905140123702367306248733991968433,0.0348926694815385786119511986277571,-0.00473047487554089867646881917866378,0.00158989189606864378101254994508743,-0.000383141108095506429877573978530933,0.101008574252715544023945432482130,
+0.0153271048969542698801510736972094,0.0353567926924731252859830038328148,0.0532367730812192226068251391589531,0.0703344091540065648083178776879147,0.0823442689651050929600866127266239,0.0941488344180384727718938142929845,0.103057947567124515574255021054200,0.0969776508164696667388024837354999,0.0959530872793661145472135898255818,0.0792491951236394768200924599877166,0.0759465967849754217509218533022837,0.0267898051167929837529673866714673,-0.00306229400235151540090242893004299,0.000616955204475074227756258877657089,0.0978261646069251217759600144662443,
+0.0154149845381304964785920680481420,0.0350485664711121967400961078036968,0.0538442399196164914735729464764946,0.0693631448945550928225379355328932,0.0837388919035384894817605598375095,0.0922702718133252457642679765806976,0.0999865162263192425835296016591083,0.100819284468707497585796754730466,0.0911150400556635490902019445530490,0.0855716965539155792658710915713611,0.0666317969114065554490921182135592,0.0582431240992573667150442252693358,0.0175915118720270311773168541126668,-0.00125960175291970632118194825290922,0.100257228225697823847381237719034,
+0.0153515586543041220778263521013857,0.0352708028043186492299303902441142,0.0534070721058793904661710561782412,0.0700600545848320753424851922330328,0.0827425561778053647624860344631078,0.0936039503589538305715368766083769,0.102118319242737906496475575367091,0.0982084351107024335217874332073118,0.0942892512537179909799815657919898,0.0816898987693397053895117325634411,0.0715241886168801380594902794212946,0.0514298388766974610630553013885224,0.0380651002670184581552691777917386,0.00768831049902931708865709839430110,0.0985469216880258710401187935393578,
+0.0152205067962909603616678765363263,0.0357516577923476838343019497729786,0.0523709704994615078630784944097975,0.0719875245446854731616228980247642,0.0791688488804997618371713772903743,0.101373335296767840314881479910198,-0.00902877559412104678208843334634815,0.00475195482617315414415454362578481,-0.00298169114149615639649103678795289,0.00195702490455273153237480356183629,-0.00126102326903392563676881835050655,0.000750415696790054527278685650135590,-0.000369322551827174914126323016613038,0.000103654988413980888598769410967572,0.0496078713317778941140295816109598};
 
 initializer_list<double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573};
 
@@ -245,22 +245,22 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<16,double>(double* a,double* b)
 {
-initializer_list<double> la={0.00678811485294,-0.00254981560167,0.00190909917814,0.00130038636167,-0.0010994139781,0.000928810382461,-0.000778400292638,0.000642913073058,-0.000519591764617,0.00040712132102,-0.000305112838734,0.000213868739423,6.83510931381e-05,-0.00155293958635,-0.000134342751559,-1.95156840006e-05,
-0.0146883557391,0.0155633809847,-0.00414132717597,-0.00219345482568,0.00178743918154,-0.00147829989567,0.00122248349189,-0.00100078933566,0.00080388482228,-0.000627151628945,0.000468554602992,-0.000327706017463,-0.000104467756263,0.00281624066329,0.000205533641771,2.9811971512e-05,
-0.013031488757,0.033836054138,0.0237896279206,0.00349652217282,-0.00261183969113,0.00206262230134,-0.0016592708238,0.00133445175088,-0.00105910023568,0.000819360728619,-0.000608529289731,0.000423816016176,0.000134461891658,-0.005501892634,-0.000265040935249,-3.83332614651e-05,
-0.0133402027363,0.0320395557787,0.0453551063259,0.0373989972041,-0.00752716211389,0.00435798231924,-0.00302623842372,0.00223860976756,-0.0016860315402,0.0012598276945,-0.000913650835738,0.00062593432646,0.000194986345721,0.0678462253282,-0.000387087528109,-5.53795862795e-05,
-0.0137527040949,0.030468942878,0.0490485387199,0.081454747949,0.0422891298488,-0.00813602844568,0.00453707368666,-0.0030426448597,0.00217120095071,-0.00156962068732,0.0011141466517,-0.000752443887086,-0.000230806350741,0.0593603918071,0.000460929012641,6.53498025627e-05,
-0.0134381190018,0.0316307469464,0.0465043796221,0.0712277617589,0.0921151518922,0.0456508537612,-0.00844642793523,0.00454380119921,-0.00293743652118,0.00201131394853,-0.00138126417499,0.000913338905275,0.000274062032276,0.0642830051583,-0.000551919591018,-7.72613934738e-05,
-0.0136877916708,0.0307250535497,0.0484126854179,0.0771876047046,0.0805272007369,0.0994428614739,0.0473626526138,-0.00844803342104,0.00437957742267,-0.00271671446709,0.00176767465118,-0.00113163758565,-0.000328859657487,0.060863467025,0.000670277294016,9.21436520028e-05,
-0.0134840860539,0.0314556216268,0.0469089785472,0.0730303197571,0.0872949741646,0.0869221300998,0.103173338649,0.0473626526138,-0.00814115395141,0.00405105896059,-0.00238961029634,0.00145101860274,0.000401708419647,0.0634461232134,-0.000833429576667,-0.00011156196489,
-0.0136534910994,0.030852699937,0.0481311754323,0.0761792585833,0.082566945749,0.0942391440436,0.0901815040283,0.103171733163,0.0456508537612,-0.00753689219466,0.00357023264943,-0.00196851953058,-0.000503984977066,0.0614011467225,0.0010748762191,0.000138110704035,
-0.0135108799033,0.0313575683201,0.0471183268286,0.0736838477566,0.0861478803848,0.0891305065718,0.0977679500872,0.0901882315409,0.0994377359681,0.0422891298488,-0.00665675354067,0.00295409382069,0.000657819091304,0.0630669295149,-0.00146928287866,-0.000176474389069,
-0.0136316092922,0.0309317756236,0.0479663433694,0.075711645244,0.083318432003,0.0929877390627,0.09248669546,0.0977515436513,0.0869437252032,0.0921054218114,0.0373989972041,-0.00553173970039,-0.000912793809372,0.0616885513013,0.00222414951539,0.000236026969602,
-0.0135296349037,0.0312904546822,0.047255657717,0.0740466661773,0.0855995373964,0.0899635050041,0.0964455266917,0.0925195872689,0.0941859356858,0.0805687246461,0.0814379117728,0.0311572428139,0.00140674278045,0.0628342944282,-0.00420088450714,-0.000338333283687,
-0.0135464177344,0.0312312297256,0.0473737221995,0.0743294398053,0.0852054113264,0.0904978227002,0.0957260945632,0.0935028217356,0.0927800074181,0.082790820516,0.076991449234,0.0594982449645,0.0155633809847,0.0626421916452,0.0517205830172,-0.00111212603322,
-0.0139145629896,0.0297200191889,0.0517801403484,-0.00663991736447,0.00400953505145,-0.00288422816336,0.00220571795868,-0.0017202214642,0.00133820251837,-0.00102127769889,0.00075132823097,-0.000519808800401,-0.000163692712838,0.0311572428139,0.000323598124258,4.65948022208e-05,
-0.0136145629673,0.0309923000777,0.0478442967765,0.075406523698,0.0837588989689,0.0923608077581,0.0933908534767,0.0963845760513,0.0892390852211,0.0871900993886,0.0713014722355,0.0678163782618,-0.0027092921687,0.0618906696116,0.0237896279206,0.000544740948874,
-0.0135957453899,0.0310584108762,0.0477135985928,0.075103107247,0.0841711383765,0.0918212992871,0.0940823921545,0.0955037055202,0.09037289714,0.0856776736756,0.0734976080466,0.0638674252141,0.033676577571,0.0621006168883,0.0456701566631,0.00678811485294};
+initializer_list<double> la={0.00678811485293852371294514311400453,-0.00254981560166642060794569067228638,0.00190909917813672352877801175229420,0.00130038636167335289131149058789750,-0.00109941397810467496743881733363378,0.000928810382461165787713007929583067,-0.000778400292638016970213471818843129,0.000642913073058191572480402310603516,-0.000519591764617300727073793902583398,0.000407121321020350344602879245931763,-0.000305112838734354656103913206664628,0.000213868739423092125277034461916634,0.0000683510931380568197932759579296331,-0.00155293958635445852534156874682570,-0.000134342751558613532849595377351067,-0.0000195156840005830940114810271390690,
+0.0146883557390946385758642521469263,0.0155633809846619732157109592485944,-0.00414132717596763996878861232853917,-0.00219345482567798016982323843681041,0.00178743918153624175343071841289058,-0.00147829989566992546596208722498436,0.00122248349189014866625509839220072,-0.00100078933565830982842652679008346,0.000803884822279940961686355000181995,-0.000627151628945023668023605338992174,0.000468554602991504934816921554325165,-0.000327706017463433279300993976240050,-0.000104467756262960729780516285484119,0.00281624066329179723974536344229666,0.000205533641770747263601026242237198,0.0000298119715119924600006781741765009,
+0.0130314887570029239238070779942658,0.0338360541380276180593656116868798,0.0237896279206231962024812769005616,0.00349652217282333762047567566641019,-0.00261183969113449188384120696449657,0.00206262230133837007802008817731631,-0.00165927082379871426000051462803313,0.00133445175087720853587420167870525,-0.00105910023568189585536302557340930,0.000819360728618994732230322769157078,-0.000608529289730636770195138989976567,0.000423816016176219956789937505986881,0.000134461891657840509651754065444609,-0.00550189263400219470130649699861349,-0.000265040935248507636968787866946170,-0.0000383332614651404512547242794488369,
+0.0133402027362754284067900662363016,0.0320395557786961649790658295553046,0.0453551063258562077032403018991998,0.0373989972041441830203754326368696,-0.00752716211388616522865856954022408,0.00435798231923588344843112214714441,-0.00302623842372018278324271394385074,0.00223860976756049347672080923707275,-0.00168603154019661600337826224358255,0.00125982769450141872687683280008835,-0.000913650835738432921668043535352149,0.000625934326460294421810833241733622,0.000194986345721210110687336877989096,0.0678462253281563804520834767661078,-0.000387087528108609216096437675937933,-0.0000553795862795328163738964832596964,
+0.0137527040949456381585719692773963,0.0304689428780194995010284424119904,0.0490485387199112662446557436788485,0.0814547479489546900093434676951639,0.0422891298487506345473280197575900,-0.00813602844568463378031886725894453,0.00453707368665636325875087328546242,-0.00304264485970265102036782781614618,0.00217120095070617941088324752289254,-0.00156962068732266188109902536961831,0.00111414665170165347439732078861472,-0.000752443887085733211963936880960639,-0.000230806350741480777897190755212045,0.0593603918070741529829473498398750,0.000460929012640643666572498339346957,0.0000653498025627462459581939919122352,
+0.0134381190018423601612728088869929,0.0316307469463899425607317444310215,0.0465043796221450675754501548802689,0.0712277617588559187531155126205067,0.0921151518921634601747533085146769,0.0456508537612308972166909169923050,-0.00844642793523074838713993385383526,0.00454380119920973210288173064487636,-0.00293743652117923594369543773037534,0.00201131394852731722720980289781172,-0.00138126417498597858451122992075628,0.000913338905274806437438626010877776,0.000274062032275837566195147338256161,0.0642830051583429101538245285291243,-0.000551919591017902593455885724942517,-0.0000772613934738410359920452470569326,
+0.0136877916707669093796072977755514,0.0307250535496773673535467999086984,0.0484126854179133761310679478949778,0.0771876047046273585479673839730614,0.0805272007369102555810475990728894,0.0994428614738752770173381402428347,0.0473626526137671240713491808020708,-0.00844803342103768353509484825593283,0.00437957742267448243151600841104754,-0.00271671446709042054123135194433941,0.00176767465118347190532670583864947,-0.00113163758564593222063565130415360,-0.000328859657486953683278381006855350,0.0608634670250274359810760616176631,0.000670277294016365106867027648281658,0.0000921436520028463808704116130765519,
+0.0134840860538742010450198746149325,0.0314556216268109001147002995040442,0.0469089785472300272980955261528415,0.0730303197571048941354241594350898,0.0872949741645916896358873914595194,0.0869221300997873120018658255735624,0.103173338648571931677793209860074,0.0473626526137671240713491808020708,-0.00814115395141348258395630625822473,0.00405105896059101351360844044229058,-0.00238961029633899250721651869932213,0.00145101860273950004516207947834509,0.000401708419646579077875118588490492,0.0634461232134128682468737924001618,-0.000833429576666983726105394093854658,-0.000111561964889861953717011547542351,
+0.0136534910993508884618823314750660,0.0308526999370481088652267711589327,0.0481311754322642949984184395260656,0.0761792585832743446252620951944955,0.0825669457489739518674462366173683,0.0942391440436410303770772717149853,0.0901815040283245160398166309592652,0.103171733162764996529838295457977,0.0456508537612308972166909169923050,-0.00753689219466219108009726899949692,0.00357023264943244728763535265323259,-0.00196851953057597412758638743311610,-0.000503984977065996129309825933832687,0.0614011467224921295887995150851304,0.00107487621910132482951239892085417,0.000138110704034687264617477341016161,
+0.0135108799033143011799320922360968,0.0313575683200654272093191092524009,0.0471183268286057487383900554617762,0.0736838477565867125663535444851246,0.0861478803848239309757550648847983,0.0891305065717556150224985864617174,0.0977679500872368991630661894202877,0.0901882315408778848839474883186791,0.0994377359681464282137007012435545,0.0422891298487506345473280197575900,-0.00665675354066632396859260242142458,0.00295409382069278304329079125613317,0.000657819091304446930393476085198443,0.0630669295148526692382020779769688,-0.00146928287866487383969318987772537,-0.000176474389068590732681683049387217,
+0.0136316092921565802422641827112687,0.0309317756236027363207345816191998,0.0479663433693550016210589914770610,0.0757116452440267989624189088090914,0.0833184320029998503677792067150916,0.0929877390626584104367600962281925,0.0924866954599737546659775523670688,0.0977515436512544309259410755479923,0.0869437252032259109849507118374656,0.0921054218113874343233146090554041,0.0373989972041441830203754326368696,-0.00553173970038944442584533567009958,-0.000912793809372218547643911058115780,0.0616885513013066416044273078542746,0.00222414951539018470172225190192333,0.000236026969601619019100219991707471,
+0.0135296349036562863191162942201955,0.0312904546821617165141440676077688,0.0472556577169880921728028129867975,0.0740466661773180896227734476220056,0.0855995373963959978740743695689147,0.0899635050040873503460093591141703,0.0964455266917309385424293315073437,0.0925195872688501219803829673392555,0.0941859356858218591189075637583719,0.0805687246460556153515767050519785,0.0814379117727585345112376205942748,0.0311572428138834680131190705480041,0.00140674278045478759427331892975439,0.0628342944281682934073314379887084,-0.00420088450714280999606686330035426,-0.000338333283686824424560906113468200,
+0.0135464177343650549658896080538326,0.0312312297255869071612024347826730,0.0473737221994756451413615275588859,0.0743294398052968611059339437194141,0.0852054113264462927626796448541722,0.0904978227001818534716954789844280,0.0957260945631925579711248883942250,0.0935028217356440994764432632119408,0.0927800074181317198993439212095943,0.0827908205159650273412253211022894,0.0769914492339663462105741037105497,0.0594982449644751387864927776537115,0.0155633809846619732157109592485944,0.0626421916452303693055391350722483,0.0517205830172140323737511661296623,-0.00111212603321759114997396591891728,
+0.0139145629895638718504511923414773,0.0297200191888691588371485995674345,0.0517801403483892024010294171014774,-0.00663991736447016847048675532053550,0.00400953505144565374307933446320152,-0.00288422816336006468552572977376197,0.00220571795868412616231539426488608,-0.00172022146419669039973096990320212,0.00133820251837444408737247487043966,-0.00102127769889472877941833005373477,0.000751328230970276417977417651733669,-0.000519808800401357381093296892700162,-0.000163692712837770082722149110579910,0.0311572428138834680131190705480041,0.000323598124258300232159740814325638,0.0000465948022207611067739920078135380,
+0.0136145629673421878771450105074579,0.0309923000776661059217701644317442,0.0478442967764949000419313416680693,0.0754065236980190028109460042637158,0.0837588989688822743624257167460229,0.0923608077581436902887448595580193,0.0933908534766570396068241599254363,0.0963845760513329624026988762321747,0.0892390852211234243553617458072937,0.0871900993886357609784972464796766,0.0713014722354650284202751896073291,0.0678163782617691307275446380946217,-0.00270929216870367162794369318969099,0.0618906696115907160694482035900213,0.0237896279206231962024812769005616,0.000544740948874123502083208233743262,
+0.0135957453898776305199017672551481,0.0310584108761858896116286425392592,0.0477135985928050059378121491784742,0.0751031072470227206968547784804039,0.0841711383764809187500531602692482,0.0918212992870790951604556278871934,0.0940823921544760565702179592935380,0.0955037055201722651129118334229847,0.0903728971400006286456688260550269,0.0856776736756059440620948568488138,0.0734976080466150131494393746858418,0.0638674252141213945515797098428339,0.0336765775709903670393676091694752,0.0621006168883438439009611066340916,0.0456701566631096688761845420488289,0.00678811485293852371294514311400453};
 
 initializer_list<double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404};
 
-- 
2.43.0


From 8f73ba873cd06d50a675099e317f93936e32bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 30/39] fix: SymplecticRK<...,long double> computes with the
 precision of long double

Coefficients were written as literals of double, and b_i, the steps and the extrapolation coefficients went through double.
---
 SymplecticRK/include/Extrap.hpp         |   4 +-
 SymplecticRK/include/GaussianMethod.hpp |   2 +-
 SymplecticRK/include/SymplecticRK.hpp   |   2 +-
 SymplecticRK/sage/comp1.sage            |  10 +-
 SymplecticRK/sage/generated_coeffs.hpp  | 316 ++++++++++++------------
 5 files changed, 168 insertions(+), 166 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index 923107c..dcd3b15 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -25,7 +25,7 @@ namespace odes{
     ~Extrap(){}
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
        // copy coefficients in q[].
       extrapcoeffs<nsteps,Double>(q);
@@ -45,7 +45,7 @@ namespace odes{
 	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
-	      double beta=q[nsteps*i+j];
+	      Double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
 		Y[n*i+l]+=beta*F[n*j+l];
 	    }
diff --git a/SymplecticRK/include/GaussianMethod.hpp b/SymplecticRK/include/GaussianMethod.hpp
index 64afba4..4fc0334 100644
--- a/SymplecticRK/include/GaussianMethod.hpp
+++ b/SymplecticRK/include/GaussianMethod.hpp
@@ -76,7 +76,7 @@ namespace odes{
     }
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
       //init();
       icoeffs<nsteps,long double>(a,b);
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 4929ba2..454d95e 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -127,7 +127,7 @@ public:
 	
 	for(int i=0;i<nsteps;i++)
 	  {
-	    double bi=G.b[i];
+	    Double bi=G.b[i];
 #include "Ivdep.hpp"
 	    for(int j=0;j<n;j++)
 	      delta[j]+=bi*Y1[i*n+j];
diff --git a/SymplecticRK/sage/comp1.sage b/SymplecticRK/sage/comp1.sage
index 9f00318..8c058d7 100644
--- a/SymplecticRK/sage/comp1.sage
+++ b/SymplecticRK/sage/comp1.sage
@@ -49,17 +49,18 @@ def lcoeffs(s,Rout,Rpivot):
     #print AA.parent(),BB.parent()
     #
     print "Cooper,Rout = ",Cooper(s,AA,BB)
-    la="initializer_list<double> la={"
+    # literals of long double have a suffix.
+    la="initializer_list<"+nm+"> la={"
     for i in range(0,s):
         for j in range(0,s):
-            la+=str(Rout(A[i,j]))+","
+            la+=str(Rout(A[i,j]))+sfx+","
         la+="\n"
     la=la[:-2]+"};\n"
 
 
-    lb="initializer_list<double> lb={"
+    lb="initializer_list<"+nm+"> lb={"
     for i in range(0,s):
-        lb+=str(B[i][0])+","
+        lb+=str(B[i][0])+sfx+","
     lb=lb[:-1]+"};\n"
     d={}
     d['la']=la
@@ -79,6 +80,7 @@ Rpivot=RealField(1024)
 for rng in rngs:
     Rout=rng[0]
     nm=rng[1]
+    sfx="L" if nm=="long double" else ""
     for i in range(2,17):
         a="template<> void icoeffs<"+str(i)+","+nm+">("+nm+"* a," \
             +nm+"* b)\n{\n"
diff --git a/SymplecticRK/sage/generated_coeffs.hpp b/SymplecticRK/sage/generated_coeffs.hpp
index 8af8613..08e7c64 100644
--- a/SymplecticRK/sage/generated_coeffs.hpp
+++ b/SymplecticRK/sage/generated_coeffs.hpp
@@ -270,10 +270,10 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<2,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.250000000000000000000000000000000,-0.0386751345948128822545743902509787,
-0.538675134594812882254574390250979,0.250000000000000000000000000000000};
+initializer_list<long double> la={0.250000000000000000000000000000000L,-0.0386751345948128822545743902509787L,
+0.538675134594812882254574390250979L,0.250000000000000000000000000000000L};
 
-initializer_list<double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000};
+initializer_list<long double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -281,11 +281,11 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<3,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.138888888888888888888888888888889,-0.0359766675249389034563954710966044,0.00978944401530832604958004222947557,
-0.300263194980864592438024947213156,0.222222222222222222222222222222222,-0.0224854172030868146602471694353778,
-0.267988333762469451728197735548302,0.480421111969383347900839915541049,0.138888888888888888888888888888889};
+initializer_list<long double> la={0.138888888888888888888888888888889L,-0.0359766675249389034563954710966044L,0.00978944401530832604958004222947557L,
+0.300263194980864592438024947213156L,0.222222222222222222222222222222222L,-0.0224854172030868146602471694353778L,
+0.267988333762469451728197735548302L,0.480421111969383347900839915541049L,0.138888888888888888888888888888889L};
 
-initializer_list<double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778};
+initializer_list<long double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444L,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -293,12 +293,12 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<4,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0869637112843634643432659873054999,-0.0266041800849987933133851304769531,0.0126274626894047245150568805746181,-0.00355514968579568315691098184956959,
-0.188118117499868071650685545087171,0.163036288715636535656734012694500,-0.0278804286024708952241511064189974,0.00673550059453815551539866908570376,
-0.167191921974188773171133305525296,0.353953006033743966537619131807998,0.163036288715636535656734012694500,-0.0141906949311411429641535704761715,
-0.177482572254522611843442956460569,0.313445114741868346798411144814382,0.352676757516271864626853155865953,0.0869637112843634643432659873054999};
+initializer_list<long double> la={0.0869637112843634643432659873054999L,-0.0266041800849987933133851304769531L,0.0126274626894047245150568805746181L,-0.00355514968579568315691098184956959L,
+0.188118117499868071650685545087171L,0.163036288715636535656734012694500L,-0.0278804286024708952241511064189974L,0.00673550059453815551539866908570376L,
+0.167191921974188773171133305525296L,0.353953006033743966537619131807998L,0.163036288715636535656734012694500L,-0.0141906949311411429641535704761715L,
+0.177482572254522611843442956460569L,0.313445114741868346798411144814382L,0.352676757516271864626853155865953L,0.0869637112843634643432659873054999L};
 
-initializer_list<double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411};
+initializer_list<long double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589L,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -306,13 +306,13 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<5,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0592317212640472718785660101799793,-0.0195703643590760374926432140508841,0.0112544008186429555527162442150907,0.00158811296786599853936524247059342,-0.00559379366081218487681772196447593,
-0.128151005670045283496166848329514,0.119657167624841617010322878708910,-0.0245921146196422003893182516860040,-0.00276899439876960304428263075887960,0.0103182806706833574089539450563558,
-0.113776288004224602528741273815366,0.260004651680641518592405895187574,0.142222222222222222222222222222222,0.00468715452386994122839074654459310,-0.0206903164309582845717601377697549,
-0.116875329560228545217766777889365,0.244908128910495418897463479382295,0.273190043625801488891728200229354,0.0592317212640472718785660101799793,0.258884699608759271513288971468703,
-0.121232436926864146801414651118838,0.228996054578999876611691812361463,0.309036559064086644833762696130448,-0.00968756314195073973903482796955514,0.119657167624841617010322878708910};
+initializer_list<long double> la={0.0592317212640472718785660101799793L,-0.0195703643590760374926432140508841L,0.0112544008186429555527162442150907L,0.00158811296786599853936524247059342L,-0.00559379366081218487681772196447593L,
+0.128151005670045283496166848329514L,0.119657167624841617010322878708910L,-0.0245921146196422003893182516860040L,-0.00276899439876960304428263075887960L,0.0103182806706833574089539450563558L,
+0.113776288004224602528741273815366L,0.260004651680641518592405895187574L,0.142222222222222222222222222222222L,0.00468715452386994122839074654459310L,-0.0206903164309582845717601377697549L,
+0.116875329560228545217766777889365L,0.244908128910495418897463479382295L,0.273190043625801488891728200229354L,0.0592317212640472718785660101799793L,0.258884699608759271513288971468703L,
+0.121232436926864146801414651118838L,0.228996054578999876611691812361463L,0.309036559064086644833762696130448L,-0.00968756314195073973903482796955514L,0.119657167624841617010322878708910L};
 
-initializer_list<double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788};
+initializer_list<long double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784L,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446L,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -320,14 +320,14 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<6,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0428311230947925862600740355431832,-0.0147637259971974124753725910605207,0.00932505070647775119143888450800315,-0.00566885804948351190092125641621651,0.00285443331509933513092928583011602,-0.000812780171264762112299135651562540,
-0.0926734914303788631865122917633203,0.0901903932620346518924583784594290,-0.0203001022932395859524940805242725,0.0103631562402464237307199458065600,-0.00488719292803767146341420376578964,0.00135556105548506177551787075080011,
-0.0822479226128438738077716511411289,0.196032162333245006055759781563801,0.116978483643172761847467585997388,-0.0204825277456560976298590118654006,0.00798999189966233579720442148030827,-0.00207562578486633419359528915758165,
-0.0877378719744515067137433602439481,0.172390794624406967987712335438550,0.254439495032001621324794183860176,0.116978483643172761847467585997388,-0.0156513758091757022708430246449433,0.00341432357674129871237641994523753,
-0.0843066851341001107446302003355663,0.185267979452106975248330960684648,0.223593811046099099964215226188216,0.254257069579585109647429252519048,0.0901903932620346518924583784594290,-0.00701124524079369066636422067695387,
-0.0864750263608499346324472067379290,0.177526353208969968653987471088742,0.239625825335829035595856428410992,0.224631916579867772503496287486772,0.195144512521266716260289347979379,0.0428311230947925862600740355431832};
+initializer_list<long double> la={0.0428311230947925862600740355431832L,-0.0147637259971974124753725910605207L,0.00932505070647775119143888450800315L,-0.00566885804948351190092125641621651L,0.00285443331509933513092928583011602L,-0.000812780171264762112299135651562540L,
+0.0926734914303788631865122917633203L,0.0901903932620346518924583784594290L,-0.0203001022932395859524940805242725L,0.0103631562402464237307199458065600L,-0.00488719292803767146341420376578964L,0.00135556105548506177551787075080011L,
+0.0822479226128438738077716511411289L,0.196032162333245006055759781563801L,0.116978483643172761847467585997388L,-0.0204825277456560976298590118654006L,0.00798999189966233579720442148030827L,-0.00207562578486633419359528915758165L,
+0.0877378719744515067137433602439481L,0.172390794624406967987712335438550L,0.254439495032001621324794183860176L,0.116978483643172761847467585997388L,-0.0156513758091757022708430246449433L,0.00341432357674129871237641994523753L,
+0.0843066851341001107446302003355663L,0.185267979452106975248330960684648L,0.223593811046099099964215226188216L,0.254257069579585109647429252519048L,0.0901903932620346518924583784594290L,-0.00701124524079369066636422067695387L,
+0.0864750263608499346324472067379290L,0.177526353208969968653987471088742L,0.239625825335829035595856428410992L,0.224631916579867772503496287486772L,0.195144512521266716260289347979379L,0.0428311230947925862600740355431832L};
 
-initializer_list<double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044};
+initializer_list<long double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892L,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -335,15 +335,15 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<7,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0323712415422174233176528581697705,-0.0114510172831838702881645824731459,0.00763320387242354492584664422163565,-0.00513373356322534498195629758233913,0.00317505877368563763683431730199470,-0.00160681903704610585560610128347643,0.000458109523749452982298319621634935,
-0.0700435413787260762729814536065897,0.0699263478723191669753669428559449,-0.0165900065788477711644699061373328,0.00934962278344333207631107766792938,-0.00539709193189613785462120177242070,0.00264584386673003737983031295579446,-0.000743850190171923617331065816899149,
-0.0621539357873498645358789291293530,0.152005522057830992561321708847833,0.0954575126262797362375924438722438,-0.0183752442154518373892046007271753,0.00871256259847518198378369475574952,-0.00395358015881043812088052856667313,0.00107671561562791673820514665018881,
-0.0663329286176847005521322620413143,0.133595769223882288417924053929659,0.207701880765970782089300497781520,0.104489795918367346938775510204082,-0.0167868555134113096141156100370328,0.00625692652075604553280983178223092,-0.00159044553324985391682654570177327,
-0.0636657674688069298971005696893522,0.143806275903448772071614414278563,0.182202462654084290491401192988738,0.227354836052186531266755621135339,0.0954575126262797362375924438722438,-0.0121528263131926586105878231359428,0.00258854729708498209942678721018804,
-0.0654863332746067702526367821564402,0.137206851877908296570903572756095,0.196312117184455610329806089516908,0.199629969053291361801239942740234,0.207505031831407243639654793881820,0.0699263478723191669753669428559449,-0.00530105829429122963767573726704867,
-0.0642843735606853936530073967179061,0.141459514781684439806339986995366,0.187739966478873834838350570442493,0.214113325399960038859507317990502,0.183281821380135927549338243522852,0.151303713027822204238898468185036,0.0323712415422174233176528581697705};
+initializer_list<long double> la={0.0323712415422174233176528581697705L,-0.0114510172831838702881645824731459L,0.00763320387242354492584664422163565L,-0.00513373356322534498195629758233913L,0.00317505877368563763683431730199470L,-0.00160681903704610585560610128347643L,0.000458109523749452982298319621634935L,
+0.0700435413787260762729814536065897L,0.0699263478723191669753669428559449L,-0.0165900065788477711644699061373328L,0.00934962278344333207631107766792938L,-0.00539709193189613785462120177242070L,0.00264584386673003737983031295579446L,-0.000743850190171923617331065816899149L,
+0.0621539357873498645358789291293530L,0.152005522057830992561321708847833L,0.0954575126262797362375924438722438L,-0.0183752442154518373892046007271753L,0.00871256259847518198378369475574952L,-0.00395358015881043812088052856667313L,0.00107671561562791673820514665018881L,
+0.0663329286176847005521322620413143L,0.133595769223882288417924053929659L,0.207701880765970782089300497781520L,0.104489795918367346938775510204082L,-0.0167868555134113096141156100370328L,0.00625692652075604553280983178223092L,-0.00159044553324985391682654570177327L,
+0.0636657674688069298971005696893522L,0.143806275903448772071614414278563L,0.182202462654084290491401192988738L,0.227354836052186531266755621135339L,0.0954575126262797362375924438722438L,-0.0121528263131926586105878231359428L,0.00258854729708498209942678721018804L,
+0.0654863332746067702526367821564402L,0.137206851877908296570903572756095L,0.196312117184455610329806089516908L,0.199629969053291361801239942740234L,0.207505031831407243639654793881820L,0.0699263478723191669753669428559449L,-0.00530105829429122963767573726704867L,
+0.0642843735606853936530073967179061L,0.141459514781684439806339986995366L,0.187739966478873834838350570442493L,0.214113325399960038859507317990502L,0.183281821380135927549338243522852L,0.151303713027822204238898468185036L,0.0323712415422174233176528581697705L};
 
-initializer_list<double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471};
+initializer_list<long double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930L,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877L,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -351,16 +351,16 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<8,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0253071340725940647881328385774905,-0.00910594330597007502136365210466435,0.00628083114703047398060942073780760,-0.00448301561305475144191331423530155,0.00307849136832677988985383064911711,-0.00191767525463695234092563511949444,0.000972757664059263526724523824088790,-0.000277508327116919222898446613780209,
-0.0547593217675543202831907973850023,0.0555952586133436176360889986065602,-0.0136397962357816692530306620699761,0.00814970885836055053604042748372916,-0.00521535208914715338024336977463765,0.00313975298546366894234500690115627,-0.00156493491094894237579511140443043,0.000442802304342237815626944634681052,
-0.0485875359989128809431601473474389,0.120859524997173167441653743003485,0.0784266614694718218344905504966503,-0.0159751033618784314756701138556965,0.00837173272022616378691032206439061,-0.00464346586210447979012617007024473,0.00222571477528489971831530140789318,-0.000618805695250515367603304988539769,
-0.0518655209705812345653120779649669,0.106193490148348406878869450082582,0.170671134274553621284710784603994,0.0906709458445904957412876123192989,-0.0160210413210250131687052177938008,0.00724120656122226986180306301493881,-0.00319781431036077032248274309542093,0.000859236584264852689466901723348634,
-0.0497550315609232768867987754316325,0.114388331537048005594660740308541,0.149612116377721373807178037978362,0.197362933010206004651280442432399,0.0906709458445904957412876123192989,-0.0138178113356099776157296836106934,0.00499702707833882839330854713053803,-0.00125125282539310498904640080998583,
-0.0512330738404386449438689821435209,0.108964802451402335553862695805227,0.161496788801048123459107271063545,0.172970158968954827695664902574207,0.197316995051059422958245338494294,0.0784266614694718218344905504966503,-0.00966900777048593216947574579036441,0.00202673214627524863310552980754224,
-0.0501714658408458917606387325203000,0.112755452137636177647973108617551,0.153713569953479974726636094092144,0.186557243778328144862818594413235,0.173192182830820440946534797154869,0.170493119174725312922011763063277,0.0555952586133436176360889986065602,-0.00414505362236619070692512023002115,
-0.0508917764723050487991641237687613,0.110217759562627971745453473389032,0.158770998193580596009906736112795,0.178263400320854211592721393989481,0.185824907302235742924488538873899,0.150572491791913169688371680255493,0.120296460532657310293541649317785,0.0253071340725940647881328385774905};
+initializer_list<long double> la={0.0253071340725940647881328385774905L,-0.00910594330597007502136365210466435L,0.00628083114703047398060942073780760L,-0.00448301561305475144191331423530155L,0.00307849136832677988985383064911711L,-0.00191767525463695234092563511949444L,0.000972757664059263526724523824088790L,-0.000277508327116919222898446613780209L,
+0.0547593217675543202831907973850023L,0.0555952586133436176360889986065602L,-0.0136397962357816692530306620699761L,0.00814970885836055053604042748372916L,-0.00521535208914715338024336977463765L,0.00313975298546366894234500690115627L,-0.00156493491094894237579511140443043L,0.000442802304342237815626944634681052L,
+0.0485875359989128809431601473474389L,0.120859524997173167441653743003485L,0.0784266614694718218344905504966503L,-0.0159751033618784314756701138556965L,0.00837173272022616378691032206439061L,-0.00464346586210447979012617007024473L,0.00222571477528489971831530140789318L,-0.000618805695250515367603304988539769L,
+0.0518655209705812345653120779649669L,0.106193490148348406878869450082582L,0.170671134274553621284710784603994L,0.0906709458445904957412876123192989L,-0.0160210413210250131687052177938008L,0.00724120656122226986180306301493881L,-0.00319781431036077032248274309542093L,0.000859236584264852689466901723348634L,
+0.0497550315609232768867987754316325L,0.114388331537048005594660740308541L,0.149612116377721373807178037978362L,0.197362933010206004651280442432399L,0.0906709458445904957412876123192989L,-0.0138178113356099776157296836106934L,0.00499702707833882839330854713053803L,-0.00125125282539310498904640080998583L,
+0.0512330738404386449438689821435209L,0.108964802451402335553862695805227L,0.161496788801048123459107271063545L,0.172970158968954827695664902574207L,0.197316995051059422958245338494294L,0.0784266614694718218344905504966503L,-0.00966900777048593216947574579036441L,0.00202673214627524863310552980754224L,
+0.0501714658408458917606387325203000L,0.112755452137636177647973108617551L,0.153713569953479974726636094092144L,0.186557243778328144862818594413235L,0.173192182830820440946534797154869L,0.170493119174725312922011763063277L,0.0555952586133436176360889986065602L,-0.00414505362236619070692512023002115L,
+0.0508917764723050487991641237687613L,0.110217759562627971745453473389032L,0.158770998193580596009906736112795L,0.178263400320854211592721393989481L,0.185824907302235742924488538873899L,0.150572491791913169688371680255493L,0.120296460532657310293541649317785L,0.0253071340725940647881328385774905L};
 
-initializer_list<double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785};
+initializer_list<long double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531L,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -368,17 +368,17 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<9,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0203185970903936029929730395276309,-0.00739786856614878686542489503086324,0.00522200359210005389185584360564744,-0.00387345129174498055049537887338993,0.00283136945006983986354937012363709,0.00122660978881256074839466284462653,-0.000622964091648914481159571486571450,0.000177778462744798652780015293222430,-0.00196219418839121917026118745577622,
-0.0439655272265284041585412645645087,0.0451620401737143510146180078107282,-0.0113354640123350470465925464814319,0.00703476680173468143903695814226945,-0.00478827613101664029445945068615472,-0.00196440573995350861710011819853350,0.000987172103665947150853208009195396,-0.000280274237640940717284308546381075,0.00320336015198485576267209135093205,
-0.0390086533962843337053406260551850,0.0981815119598481585602972012795661,0.0651526741007338655796857173546582,-0.0137708339866085721988706377249966,0.00766417562464213864225207092504704,0.00277082889275901981606719881443306,-0.00136167198307300388077294236226989,0.000382532112918055676721205511905614,-0.00471358646779919455507145952426565,
-0.0416450870273228085684590957995216,0.0862554727725037766071341170647431,0.141795216041145464700711349265044,0.0780867692600007100171576016461109,-0.0146189578759125574286313738589815,-0.00393283991503873128187398305621736,0.00185268620082252394849783525333888,-0.000510573474928686025187960892672731,0.00730042826218022637446431145744470,
-0.0399403728698347433203974299378427,0.0929433722727170869747695620130788,0.124257110410775669930284959188188,0.170000445255253483576298037267459,0.0825598387503149407911312673217435,0.00604823779069206122908647552112829,-0.00261929192528838494553354639162238,0.000696821310952462665548649117419158,-0.0138269067352520635419828339752373,
-0.0402546620678691503092248735433562,0.0916857523305017059100089579837263,0.127534519308708711343304235894883,0.160887124987800614589386662816487,0.157455501875987742940010463718440,0.0651526741007338655796857173546582,-0.00785743161241945653106118565810966,0.00162854078450287228060545300007680,0.169944372506609992233185841017218,
-0.0409174684184281467032303876016429,0.0893369082437627548783828076122610,0.132269753941421239776471552907850,0.152970178368016564271643111941290,0.169907953631646521876721985329642,0.141640812213802778205963981190748,0.0451620401737143510146180078107282,-0.00332833304574119817259518550924687,0.149138771718266738595278245149952,
-0.0404594157180424073331660637620394,0.0909470444390776165103955871080279,0.129078738412655170410976771864690,0.158135732708392639204576390747998,0.162288308050560041718713164519850,0.125083344609367677267515591103669,0.0977219489135774888946609106523197,0.0203185970903936029929730395276309,0.160046989811746400584810582165612,
-0.0411477676557158920111340399479346,0.0884713941466061780807381803681175,0.134238188116506462441245417765534,0.148873110257821193659850891834777,0.179738635376542439010893908502469,-0.0114898678396777335413399145557277,0.00406860757492492542210189855671329,-0.00100789284653560258251301674425978,0.0780867692600007100171576016461109};
-
-initializer_list<double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123};
+initializer_list<long double> la={0.0203185970903936029929730395276309L,-0.00739786856614878686542489503086324L,0.00522200359210005389185584360564744L,-0.00387345129174498055049537887338993L,0.00283136945006983986354937012363709L,0.00122660978881256074839466284462653L,-0.000622964091648914481159571486571450L,0.000177778462744798652780015293222430L,-0.00196219418839121917026118745577622L,
+0.0439655272265284041585412645645087L,0.0451620401737143510146180078107282L,-0.0113354640123350470465925464814319L,0.00703476680173468143903695814226945L,-0.00478827613101664029445945068615472L,-0.00196440573995350861710011819853350L,0.000987172103665947150853208009195396L,-0.000280274237640940717284308546381075L,0.00320336015198485576267209135093205L,
+0.0390086533962843337053406260551850L,0.0981815119598481585602972012795661L,0.0651526741007338655796857173546582L,-0.0137708339866085721988706377249966L,0.00766417562464213864225207092504704L,0.00277082889275901981606719881443306L,-0.00136167198307300388077294236226989L,0.000382532112918055676721205511905614L,-0.00471358646779919455507145952426565L,
+0.0416450870273228085684590957995216L,0.0862554727725037766071341170647431L,0.141795216041145464700711349265044L,0.0780867692600007100171576016461109L,-0.0146189578759125574286313738589815L,-0.00393283991503873128187398305621736L,0.00185268620082252394849783525333888L,-0.000510573474928686025187960892672731L,0.00730042826218022637446431145744470L,
+0.0399403728698347433203974299378427L,0.0929433722727170869747695620130788L,0.124257110410775669930284959188188L,0.170000445255253483576298037267459L,0.0825598387503149407911312673217435L,0.00604823779069206122908647552112829L,-0.00261929192528838494553354639162238L,0.000696821310952462665548649117419158L,-0.0138269067352520635419828339752373L,
+0.0402546620678691503092248735433562L,0.0916857523305017059100089579837263L,0.127534519308708711343304235894883L,0.160887124987800614589386662816487L,0.157455501875987742940010463718440L,0.0651526741007338655796857173546582L,-0.00785743161241945653106118565810966L,0.00162854078450287228060545300007680L,0.169944372506609992233185841017218L,
+0.0409174684184281467032303876016429L,0.0893369082437627548783828076122610L,0.132269753941421239776471552907850L,0.152970178368016564271643111941290L,0.169907953631646521876721985329642L,0.141640812213802778205963981190748L,0.0451620401737143510146180078107282L,-0.00332833304574119817259518550924687L,0.149138771718266738595278245149952L,
+0.0404594157180424073331660637620394L,0.0909470444390776165103955871080279L,0.129078738412655170410976771864690L,0.158135732708392639204576390747998L,0.162288308050560041718713164519850L,0.125083344609367677267515591103669L,0.0977219489135774888946609106523197L,0.0203185970903936029929730395276309L,0.160046989811746400584810582165612L,
+0.0411477676557158920111340399479346L,0.0884713941466061780807381803681175L,0.134238188116506462441245417765534L,0.148873110257821193659850891834777L,0.179738635376542439010893908502469L,-0.0114898678396777335413399145557277L,0.00406860757492492542210189855671329L,-0.00100789284653560258251301674425978L,0.0780867692600007100171576016461109L};
+
+initializer_list<long double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237L,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150L,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -386,18 +386,18 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<10,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0166678360771720343983922024733329,-0.00612068029233502987025308987906619,0.00439200373028852221698614553887794,-0.00334535050882549470870888176133072,0.00254756897027876354904962225738170,-0.00188262038693525661085207791056827,0.00131081462770308391842832788419797,-0.000820986353138291127367521983463229,0.000417243835667835720457601113273652,-0.000119093958462027525114333774861831,
-0.0360661525781943304506967868615967,0.0373628372876451482864440849144243,-0.00953137359188965945260757183913681,0.00607228446174392218489428998019616,-0.00430404581295939200907563270911149,0.00306851861086753558695384716440183,-0.00209411395745032284831574789258204,0.00129624965549819963331444499418201,-0.000654328115142468560893715735581344,0.000186135539000451362540870049864093,
-0.0319991179775146101939898453822534,0.0812275701118607728515460679181319,0.0547715906289955109988837335570408,-0.0118776128915294264824282010922476,0.00687814639770714478385800606631069,-0.00450274329686185241607146970564758,0.00294087333141394952634963014459878,-0.00177613374657410074450312651393922,0.000884246091931209019529692891224078,-0.000249838753970020848317861205161996,
-0.0341639921791087090319388879631186,0.0713553690746355578848296638813347,0.119207290548758140477788951389364,0.0673166798274990887728067303923673,-0.0130965195471968997587876242976924,0.00694886598383539031062731500230080,-0.00414845352723169508779133417255612,0.00239281424177035654040595767259466,-0.00116229795133242643161918981684538,0.000324562105530182860167670403121262,
-0.0327609312912844373135061555894162,0.0769022997036484359436613608768349,0.104444079563094207185198585546974,0.146566245550415954620379616976850,0.0738810561786882175434732486628346,-0.0131122091695853752390419769315554,0.00633145505482068380026709671442490,-0.00333810079767527560194800163458398,0.00155179916885143634252135178552101,-0.000424726034358327350430438151576489,
-0.0337603981887023961472148430982424,0.0731738754064388602303668180433277,0.112881282055666297599715468748666,0.128301904600177493745346364070310,0.160874321526961810325988474257225,0.0738810561786882175434732486628346,-0.0119328858954177770747661561921157,0.00509910169489681481256888156710769,-0.00217662512835813937077319104798624,0.000574740863059631483278249357249694,
-0.0330111100488138859366167345435446,0.0758879725266227230045073596456940,0.107150367016220665457361509441487,0.138781813182229872633404794957291,0.140813246373541044776319182323368,0.160858631904573334845734121623362,0.0673166798274990887728067303923673,-0.00966410929076711848002148427528283,0.00337030550065473868805850594751399,-0.000828320024764640235154483016452740,
-0.0335855109083140896451022661518279,0.0738414284833590875533584769376246,0.111319315004565122742270593628021,0.131692486323584228019263830640136,0.152264855654238287503017967031317,0.140883965959669290303088491259358,0.146510972546527604028041661876982,0.0547715906289955109988837335570408,-0.00650189553657047627865789808928320,0.00133655417682945860279455956441249,
-0.0331495366153436174342435348968018,0.0753800026904327651337818855644300,0.108246931602492822364453022119900,0.136727473612448500393929208677317,0.144693593746508899499992650161267,0.152066158170335827096022130034781,0.128561075193254255360719170804539,0.119074554849880681450375038953218,0.0373628372876451482864440849144243,-0.00273048042385026165391238191493083,
-0.0334547661128060963218987387215277,0.0743084307396224608524305687155750,0.110364167611129313125134989097545,0.133322545027295093627185132900537,0.149644732744311691697798575236237,0.145214543387097671537896875068287,0.137978710163823672254322342546065,0.105151177527702499780781321575204,0.0808463548676253264431412597079149,0.0166678360771720343983922024733329};
-
-initializer_list<double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219};
+initializer_list<long double> la={0.0166678360771720343983922024733329L,-0.00612068029233502987025308987906619L,0.00439200373028852221698614553887794L,-0.00334535050882549470870888176133072L,0.00254756897027876354904962225738170L,-0.00188262038693525661085207791056827L,0.00131081462770308391842832788419797L,-0.000820986353138291127367521983463229L,0.000417243835667835720457601113273652L,-0.000119093958462027525114333774861831L,
+0.0360661525781943304506967868615967L,0.0373628372876451482864440849144243L,-0.00953137359188965945260757183913681L,0.00607228446174392218489428998019616L,-0.00430404581295939200907563270911149L,0.00306851861086753558695384716440183L,-0.00209411395745032284831574789258204L,0.00129624965549819963331444499418201L,-0.000654328115142468560893715735581344L,0.000186135539000451362540870049864093L,
+0.0319991179775146101939898453822534L,0.0812275701118607728515460679181319L,0.0547715906289955109988837335570408L,-0.0118776128915294264824282010922476L,0.00687814639770714478385800606631069L,-0.00450274329686185241607146970564758L,0.00294087333141394952634963014459878L,-0.00177613374657410074450312651393922L,0.000884246091931209019529692891224078L,-0.000249838753970020848317861205161996L,
+0.0341639921791087090319388879631186L,0.0713553690746355578848296638813347L,0.119207290548758140477788951389364L,0.0673166798274990887728067303923673L,-0.0130965195471968997587876242976924L,0.00694886598383539031062731500230080L,-0.00414845352723169508779133417255612L,0.00239281424177035654040595767259466L,-0.00116229795133242643161918981684538L,0.000324562105530182860167670403121262L,
+0.0327609312912844373135061555894162L,0.0769022997036484359436613608768349L,0.104444079563094207185198585546974L,0.146566245550415954620379616976850L,0.0738810561786882175434732486628346L,-0.0131122091695853752390419769315554L,0.00633145505482068380026709671442490L,-0.00333810079767527560194800163458398L,0.00155179916885143634252135178552101L,-0.000424726034358327350430438151576489L,
+0.0337603981887023961472148430982424L,0.0731738754064388602303668180433277L,0.112881282055666297599715468748666L,0.128301904600177493745346364070310L,0.160874321526961810325988474257225L,0.0738810561786882175434732486628346L,-0.0119328858954177770747661561921157L,0.00509910169489681481256888156710769L,-0.00217662512835813937077319104798624L,0.000574740863059631483278249357249694L,
+0.0330111100488138859366167345435446L,0.0758879725266227230045073596456940L,0.107150367016220665457361509441487L,0.138781813182229872633404794957291L,0.140813246373541044776319182323368L,0.160858631904573334845734121623362L,0.0673166798274990887728067303923673L,-0.00966410929076711848002148427528283L,0.00337030550065473868805850594751399L,-0.000828320024764640235154483016452740L,
+0.0335855109083140896451022661518279L,0.0738414284833590875533584769376246L,0.111319315004565122742270593628021L,0.131692486323584228019263830640136L,0.152264855654238287503017967031317L,0.140883965959669290303088491259358L,0.146510972546527604028041661876982L,0.0547715906289955109988837335570408L,-0.00650189553657047627865789808928320L,0.00133655417682945860279455956441249L,
+0.0331495366153436174342435348968018L,0.0753800026904327651337818855644300L,0.108246931602492822364453022119900L,0.136727473612448500393929208677317L,0.144693593746508899499992650161267L,0.152066158170335827096022130034781L,0.128561075193254255360719170804539L,0.119074554849880681450375038953218L,0.0373628372876451482864440849144243L,-0.00273048042385026165391238191493083L,
+0.0334547661128060963218987387215277L,0.0743084307396224608524305687155750L,0.110364167611129313125134989097545L,0.133322545027295093627185132900537L,0.149644732744311691697798575236237L,0.145214543387097671537896875068287L,0.137978710163823672254322342546065L,0.105151177527702499780781321575204L,0.0808463548676253264431412597079149L,0.0166678360771720343983922024733329L};
+
+initializer_list<long double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273L,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -405,19 +405,19 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<11,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0139171417790434166206884301106371,-0.00514325562983490553945482672729184,0.00373560374914085018725131470439065,-0.00290037905138315003781828070850379,0.00227274215264998537669600797675868,-0.00175240116264082742702346957094253,0.00130248911731822927183376576527350,-0.000909279657711640651057229985874300,0.000570136062283444316355989598062838,-0.000289875324978482038437992853765253,0.0000827488930845835189972911298261979,
-0.0301142391948244556850291647703452,0.0313950923662261561586735748059850,-0.00810562697907984411509038761874716,0.00526282127353501507194118571645874,-0.00383743668169242759363413819373032,0.00285354676447749860209788071218239,-0.00207783291714634649529155042045045,0.00143267781287657313277759445234306,-0.000891466711988145401994499020386626,0.000451184930916069171735273863699948,-0.000128498936996653753822983719663434,
-0.0267179838502661811451222492270490,0.0682542809171542158094247997671962,0.0465725527319335628565244103579140,-0.0102895248152872145428450144855953,0.00612667324766953732872518254748621,-0.00418053753704864073577283170383163,0.00291066795410457775012630543616084,-0.00195573987509097941918238015793114,0.00119821656507352216046396088240308,-0.000600947942995045366467377875974433,0.000170372117195620967172569989546359,
-0.0285266689062404033539906138636098,0.0599560307356048885110634313934399,0.101365041153570591950231026008482,0.0582984411479976199796309262107938,-0.0116536925866713892045122531529432,0.00643838129780483330857548404618236,-0.00409164865278154504328097688232838,0.00262061890572086323919627935494752,-0.00156237108006700551652476566069921,0.000771530960015176748020373869400951,-0.000217065390840345289252973780190160,
-0.0273528599993796140716452683309802,0.0646238924302517439343240111126972,0.0888021849343891269062705363844844,0.126937527092484729329395593358849,0.0657011361275616655451722174726273,-0.0121240615804220011533673101424194,0.00621926257425001908979939369156868,-0.00363063338386324112523093675663918,0.00206324037554684363328318467300617,-0.000992886275645834511167361281996532,0.000275899729894848114109410456411519,
-0.0281917210618671959125369757792893,0.0614771890632044979378652513022305,0.0959986109028957617417890032486379,0.111095774316370167736965659831943,0.143076752307042779412913905065101,0.0682312716944751576786208820840855,-0.0116744800519194483225694701198462,0.00550110797962507222229619258964432,-0.00285350543902863602874018253281001,0.00131299566924781437948189830973959,-0.000357437503780362671160115558014999,
-0.0275583838281919851272674497648628,0.0637830710080981468285145108939666,0.0910818650883202820797656360428218,0.120227515679858481084492789178227,0.125183009680873312000545041253686,0.148586604969372316510609074310591,0.0657011361275616655451722174726273,-0.0103406447964894893701337409372614,0.00434292052947799880677828433134351,-0.00183370769779943161697686150072715,0.000481423558707219169731591890294133,
-0.0280513489489271785306298340014644,0.0620186537724371355693267757425691,0.0947074765439341312295735863765272,0.113976263390274376720065573066640,0.135493920907904876133625411827583,0.130024162091145482048666280121989,0.143055964841794720294856688098198,0.0582984411479976199796309262107938,-0.00821993568970346623718220529265396,0.00283415399684742380628371821853018,-0.000692385348153570112613753642335545,
-0.0276639114408912122742042902317279,0.0633911326754473576838145274879445,0.0919468888987936035525848598334249,0.118552622171086219378444232579519,0.128491604301018753340218129509094,0.140643080925998956093014595872003,0.125275599007453793761619252397768,0.126886407111282454502106866907183,0.0465725527319335628565244103579140,-0.00546409618470190349207765015522619,0.00111629970782065209625461099422524,
-0.0279627824950834869951998439409377,0.0623389998015362431456118757482701,0.0940365721758552711150433197362146,0.115164204483118666826484257969245,0.133480105172269677585635985365705,0.133608996624472816755143883455989,0.135239708936815758683978573138985,0.111334061022460224887320666705129,0.101250732442946969828139208334575,0.0313950923662261561586735748059850,-0.00227995563673762244365230454907090,
-0.0277515346650022497223795690914481,0.0630800600574307943557851424657353,0.0925749694015836813966928311177651,0.117506161953706880610319082407462,0.130099783137805101818510669179981,0.138214944551591142784265233739114,0.129129530102473345713648426968496,0.119497261347378389997080133130091,0.0894095017147262755257975060114373,0.0679334403622872178568019763392619,0.0139171417790434166206884301106371};
-
-initializer_list<double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041};
+initializer_list<long double> la={0.0139171417790434166206884301106371L,-0.00514325562983490553945482672729184L,0.00373560374914085018725131470439065L,-0.00290037905138315003781828070850379L,0.00227274215264998537669600797675868L,-0.00175240116264082742702346957094253L,0.00130248911731822927183376576527350L,-0.000909279657711640651057229985874300L,0.000570136062283444316355989598062838L,-0.000289875324978482038437992853765253L,0.0000827488930845835189972911298261979L,
+0.0301142391948244556850291647703452L,0.0313950923662261561586735748059850L,-0.00810562697907984411509038761874716L,0.00526282127353501507194118571645874L,-0.00383743668169242759363413819373032L,0.00285354676447749860209788071218239L,-0.00207783291714634649529155042045045L,0.00143267781287657313277759445234306L,-0.000891466711988145401994499020386626L,0.000451184930916069171735273863699948L,-0.000128498936996653753822983719663434L,
+0.0267179838502661811451222492270490L,0.0682542809171542158094247997671962L,0.0465725527319335628565244103579140L,-0.0102895248152872145428450144855953L,0.00612667324766953732872518254748621L,-0.00418053753704864073577283170383163L,0.00291066795410457775012630543616084L,-0.00195573987509097941918238015793114L,0.00119821656507352216046396088240308L,-0.000600947942995045366467377875974433L,0.000170372117195620967172569989546359L,
+0.0285266689062404033539906138636098L,0.0599560307356048885110634313934399L,0.101365041153570591950231026008482L,0.0582984411479976199796309262107938L,-0.0116536925866713892045122531529432L,0.00643838129780483330857548404618236L,-0.00409164865278154504328097688232838L,0.00262061890572086323919627935494752L,-0.00156237108006700551652476566069921L,0.000771530960015176748020373869400951L,-0.000217065390840345289252973780190160L,
+0.0273528599993796140716452683309802L,0.0646238924302517439343240111126972L,0.0888021849343891269062705363844844L,0.126937527092484729329395593358849L,0.0657011361275616655451722174726273L,-0.0121240615804220011533673101424194L,0.00621926257425001908979939369156868L,-0.00363063338386324112523093675663918L,0.00206324037554684363328318467300617L,-0.000992886275645834511167361281996532L,0.000275899729894848114109410456411519L,
+0.0281917210618671959125369757792893L,0.0614771890632044979378652513022305L,0.0959986109028957617417890032486379L,0.111095774316370167736965659831943L,0.143076752307042779412913905065101L,0.0682312716944751576786208820840855L,-0.0116744800519194483225694701198462L,0.00550110797962507222229619258964432L,-0.00285350543902863602874018253281001L,0.00131299566924781437948189830973959L,-0.000357437503780362671160115558014999L,
+0.0275583838281919851272674497648628L,0.0637830710080981468285145108939666L,0.0910818650883202820797656360428218L,0.120227515679858481084492789178227L,0.125183009680873312000545041253686L,0.148586604969372316510609074310591L,0.0657011361275616655451722174726273L,-0.0103406447964894893701337409372614L,0.00434292052947799880677828433134351L,-0.00183370769779943161697686150072715L,0.000481423558707219169731591890294133L,
+0.0280513489489271785306298340014644L,0.0620186537724371355693267757425691L,0.0947074765439341312295735863765272L,0.113976263390274376720065573066640L,0.135493920907904876133625411827583L,0.130024162091145482048666280121989L,0.143055964841794720294856688098198L,0.0582984411479976199796309262107938L,-0.00821993568970346623718220529265396L,0.00283415399684742380628371821853018L,-0.000692385348153570112613753642335545L,
+0.0276639114408912122742042902317279L,0.0633911326754473576838145274879445L,0.0919468888987936035525848598334249L,0.118552622171086219378444232579519L,0.128491604301018753340218129509094L,0.140643080925998956093014595872003L,0.125275599007453793761619252397768L,0.126886407111282454502106866907183L,0.0465725527319335628565244103579140L,-0.00546409618470190349207765015522619L,0.00111629970782065209625461099422524L,
+0.0279627824950834869951998439409377L,0.0623389998015362431456118757482701L,0.0940365721758552711150433197362146L,0.115164204483118666826484257969245L,0.133480105172269677585635985365705L,0.133608996624472816755143883455989L,0.135239708936815758683978573138985L,0.111334061022460224887320666705129L,0.101250732442946969828139208334575L,0.0313950923662261561586735748059850L,-0.00227995563673762244365230454907090L,
+0.0277515346650022497223795690914481L,0.0630800600574307943557851424657353L,0.0925749694015836813966928311177651L,0.117506161953706880610319082407462L,0.130099783137805101818510669179981L,0.138214944551591142784265233739114L,0.129129530102473345713648426968496L,0.119497261347378389997080133130091L,0.0894095017147262755257975060114373L,0.0679334403622872178568019763392619L,0.0139171417790434166206884301106371L};
+
+initializer_list<long double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487L,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194L,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -425,20 +425,20 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<12,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0117938340966279567986539903712543,-0.00437990215767931650940188692918276,0.00321056964125654262004469232623711,-0.00252868076291527559325483047108311,0.00202324519894856845571760672436639,0.00124774475192659582311909076184889,-0.000930499836629974148333740147760258,0.000650624788775465133900270947845369,-0.000408237882558168112866492596697974,0.000207615108480287514624040502392411,-0.0000592710487056506905538129963004732,-0.00160735902088665663692347356756028,
-0.0255198232326244639441836509717834,0.0267348314988296077400636795484991,-0.00696570366255593528084233870896311,0.00458737722346434400703031480933751,-0.00341487831325726315216580833366991,-0.00198873604147400184383034336299982,0.00146425936525797332056119445694672,-0.00101552961889071285353932174117125,0.000633880729666708085426064346671315,-0.000321341337251878490974152992793925,0.0000915875660363567404988113849493164,0.00261580117231290944435531656186262,
-0.0226415082464546978695105146203535,0.0581230577546837157157340098137834,0.0400195821358365565836631323858398,-0.00896632804601375189900412174147714,0.00544880489816575571543655014114527,0.00278156916561874812407426225463822,-0.00199435710192794323160270551931218,0.00136062625076553272030386945228062,-0.000840553839984532063258567090571879,0.000423460056141347174662230642939509,-0.000120308349110379280703786321047807,-0.00382839826778209094726230524498038,
-0.0241748261226971991223159086687208,0.0510550484293886763756662871780821,0.0871038538724015915546922006176071,0.0507918566807664804372661139524496,-0.0103577470216968143616942058302073,-0.00390204370620793343508578200225354,0.00266388699069817929130618710749775,-0.00176593366081374114507112195757116,0.00107205559231517493201514834145065,-0.000534534766345622524447744620771830,0.000151074627300977163206610358729114,0.00588867969618710894147918871599956,
-0.0231788873633936492342183449770824,0.0550336735248898118758263652719249,0.0763035605834845887509628990891626,0.110596236160954295848669502387033,0.0583731341345887021902124747312195,0.00591690882965931097780777409955512,-0.00367597498519267301626859146921164,0.00231791162580606885793696566969272,-0.00136729574370243207975475896064002,0.000670629185517022286304630351349835,-0.000188000196714650100120473944846696,-0.0110754199817737917021409005241805,
-0.0233514110134668871562570409586137,0.0543232717216298316487578493835701,0.0782519909929121000782088530511676,0.104765642234753235587278744603025,0.111201133079663467133798800192759,0.0622867614533506962501406090107378,-0.0103795246551256818945668362263593,0.00480193492467387405421263983863473,-0.00245976665588796403560160874505178,0.00112275870416866186970650353585504,-0.000304349193692679899622505931686133,0.135655440635822029787650595060661,
-0.0237756683899705636974284546873552,0.0527990338121421931938227287456483,0.0814064600153755452470810237323196,0.0992658017357268920165952622352065,0.120422243254370077396693540931651,0.135648942888475184202422118545656,0.0583731341345887021902124747312195,-0.00901252279942133497413727448213377,0.00373560368818852441636336568251690,-0.00156401052723059639569900617492683,0.000408780829862264363089635765426139,0.118656614077042081522473443921920,
-0.0234365935659549364341013703837794,0.0540041977640048380045751037177699,0.0789671086793579382353111164302289,0.103349647022346702019603349862470,0.114082381278479225089118762354941,0.118684843210514283558802029305476,0.127104015290874218742119155292646,0.0507918566807664804372661139524496,-0.00706468960072847838736593584592755,0.00241461456827053910446107191891601,-0.000587157929441285525007927926212295,0.128475566612909325935367000023729,
-0.0237079765423662928780117670635563,0.0530462029415178683054651284540586,0.0808797181116576452305848318622514,0.100223087110767428154228358452619,0.118740625371105347612027654981751,0.128401921174483483447543523266456,0.111297463371011648664988399321294,0.110550041407546712773536349646376,0.0400195821358365565836631323858398,-0.00465339475702450023560665071678529,0.000946159946801215727797466122154982,0.121791953741082644376206955766837,
-0.0234960806272195568568091693575592,0.0537910043349110939711015120897920,0.0794052835420064050819002004250082,0.102599242980423673728071549646070,0.115282008903919431059863755005492,0.121957721734388483055925901459613,0.120161146582434667532590757796109,0.0969963361380686168675019130955617,0.0870048679342290484481686034806426,0.0267348314988296077400636795484991,-0.00193215503936855034687567022927485,0.126562258948175394344111561384475,
-0.0236469392419615642878617937388090,0.0532620478891789279655033185946057,0.0804474021542312812801927573683775,0.100933088572757495740631956957054,0.117676768105807378528758689610199,0.126180881927588049137204691589036,0.114723023070228835924707342738073,0.104112394124448236467787058375982,0.0768285946304165705472815724454424,0.0578495651553385319895292460261809,0.0117938340966279567986539903712543,0.123325778154774796677162127259627,
-0.0238920173869485934969304866741947,0.0523469042934905536104208555611431,0.0824989309275610772029278735167313,0.0967817784368590868203195880662645,0.127125792924303086274991785688798,-0.0110819177291206372873693770391854,0.00554513518951393724662614926968001,-0.00318192887322027471274651669812568,0.00178717327876101308911741172051196,-0.000853608723970616168630490286571955,0.000236257179789026441050939783894818,0.0622867614533506962501406090107378};
-
-initializer_list<double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800};
+initializer_list<long double> la={0.0117938340966279567986539903712543L,-0.00437990215767931650940188692918276L,0.00321056964125654262004469232623711L,-0.00252868076291527559325483047108311L,0.00202324519894856845571760672436639L,0.00124774475192659582311909076184889L,-0.000930499836629974148333740147760258L,0.000650624788775465133900270947845369L,-0.000408237882558168112866492596697974L,0.000207615108480287514624040502392411L,-0.0000592710487056506905538129963004732L,-0.00160735902088665663692347356756028L,
+0.0255198232326244639441836509717834L,0.0267348314988296077400636795484991L,-0.00696570366255593528084233870896311L,0.00458737722346434400703031480933751L,-0.00341487831325726315216580833366991L,-0.00198873604147400184383034336299982L,0.00146425936525797332056119445694672L,-0.00101552961889071285353932174117125L,0.000633880729666708085426064346671315L,-0.000321341337251878490974152992793925L,0.0000915875660363567404988113849493164L,0.00261580117231290944435531656186262L,
+0.0226415082464546978695105146203535L,0.0581230577546837157157340098137834L,0.0400195821358365565836631323858398L,-0.00896632804601375189900412174147714L,0.00544880489816575571543655014114527L,0.00278156916561874812407426225463822L,-0.00199435710192794323160270551931218L,0.00136062625076553272030386945228062L,-0.000840553839984532063258567090571879L,0.000423460056141347174662230642939509L,-0.000120308349110379280703786321047807L,-0.00382839826778209094726230524498038L,
+0.0241748261226971991223159086687208L,0.0510550484293886763756662871780821L,0.0871038538724015915546922006176071L,0.0507918566807664804372661139524496L,-0.0103577470216968143616942058302073L,-0.00390204370620793343508578200225354L,0.00266388699069817929130618710749775L,-0.00176593366081374114507112195757116L,0.00107205559231517493201514834145065L,-0.000534534766345622524447744620771830L,0.000151074627300977163206610358729114L,0.00588867969618710894147918871599956L,
+0.0231788873633936492342183449770824L,0.0550336735248898118758263652719249L,0.0763035605834845887509628990891626L,0.110596236160954295848669502387033L,0.0583731341345887021902124747312195L,0.00591690882965931097780777409955512L,-0.00367597498519267301626859146921164L,0.00231791162580606885793696566969272L,-0.00136729574370243207975475896064002L,0.000670629185517022286304630351349835L,-0.000188000196714650100120473944846696L,-0.0110754199817737917021409005241805L,
+0.0233514110134668871562570409586137L,0.0543232717216298316487578493835701L,0.0782519909929121000782088530511676L,0.104765642234753235587278744603025L,0.111201133079663467133798800192759L,0.0622867614533506962501406090107378L,-0.0103795246551256818945668362263593L,0.00480193492467387405421263983863473L,-0.00245976665588796403560160874505178L,0.00112275870416866186970650353585504L,-0.000304349193692679899622505931686133L,0.135655440635822029787650595060661L,
+0.0237756683899705636974284546873552L,0.0527990338121421931938227287456483L,0.0814064600153755452470810237323196L,0.0992658017357268920165952622352065L,0.120422243254370077396693540931651L,0.135648942888475184202422118545656L,0.0583731341345887021902124747312195L,-0.00901252279942133497413727448213377L,0.00373560368818852441636336568251690L,-0.00156401052723059639569900617492683L,0.000408780829862264363089635765426139L,0.118656614077042081522473443921920L,
+0.0234365935659549364341013703837794L,0.0540041977640048380045751037177699L,0.0789671086793579382353111164302289L,0.103349647022346702019603349862470L,0.114082381278479225089118762354941L,0.118684843210514283558802029305476L,0.127104015290874218742119155292646L,0.0507918566807664804372661139524496L,-0.00706468960072847838736593584592755L,0.00241461456827053910446107191891601L,-0.000587157929441285525007927926212295L,0.128475566612909325935367000023729L,
+0.0237079765423662928780117670635563L,0.0530462029415178683054651284540586L,0.0808797181116576452305848318622514L,0.100223087110767428154228358452619L,0.118740625371105347612027654981751L,0.128401921174483483447543523266456L,0.111297463371011648664988399321294L,0.110550041407546712773536349646376L,0.0400195821358365565836631323858398L,-0.00465339475702450023560665071678529L,0.000946159946801215727797466122154982L,0.121791953741082644376206955766837L,
+0.0234960806272195568568091693575592L,0.0537910043349110939711015120897920L,0.0794052835420064050819002004250082L,0.102599242980423673728071549646070L,0.115282008903919431059863755005492L,0.121957721734388483055925901459613L,0.120161146582434667532590757796109L,0.0969963361380686168675019130955617L,0.0870048679342290484481686034806426L,0.0267348314988296077400636795484991L,-0.00193215503936855034687567022927485L,0.126562258948175394344111561384475L,
+0.0236469392419615642878617937388090L,0.0532620478891789279655033185946057L,0.0804474021542312812801927573683775L,0.100933088572757495740631956957054L,0.117676768105807378528758689610199L,0.126180881927588049137204691589036L,0.114723023070228835924707342738073L,0.104112394124448236467787058375982L,0.0768285946304165705472815724454424L,0.0578495651553385319895292460261809L,0.0117938340966279567986539903712543L,0.123325778154774796677162127259627L,
+0.0238920173869485934969304866741947L,0.0523469042934905536104208555611431L,0.0824989309275610772029278735167313L,0.0967817784368590868203195880662645L,0.127125792924303086274991785688798L,-0.0110819177291206372873693770391854L,0.00554513518951393724662614926968001L,-0.00318192887322027471274651669812568L,0.00178717327876101308911741172051196L,-0.000853608723970616168630490286571955L,0.000236257179789026441050939783894818L,0.0622867614533506962501406090107378L};
+
+initializer_list<long double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592L,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -446,21 +446,21 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<13,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0101210011913289698800053980502465,-0.00377307158532573117639653956478696,0.00278561575606280540506391769715011,-0.00221827038404612727470909369006428,0.00180306469115291924767648064980046,-0.00146428618397597206373219195398718,0.00117219434523376612789533432940761,-0.000913582925476946914279833786076516,0.000682707775014527070994806526617237,-0.000477846825328057044954904151545178,0.000299962625259445461030372797434857,-0.000152576299212045336495614490534017,0.0000435604600183718814871431827825288,
-0.0219001283175295116522258243792181,0.0230303749594321119786054439884493,-0.00604331982544823445948205359739159,0.00402367675567341024867616113409459,-0.00304249472622634548710370846496858,0.00238203498776763745077474812162596,-0.00186724640081131399249109864113950,0.00143647464828385926714290321692637,-0.00106442244601130699290888262870222,0.000740852231417186149520785772376544,-0.000463345539787940887382989363911043,0.000235139088196600369947814289646073,-0.0000670516615041579007988664565837295,
-0.0194299477196462080138986265725847,0.0500695755432635923426235131209137,0.0347183775549468096159004442172179,-0.00786303206730868570634754109820751,0.00485274615855356234460137723834130,-0.00348400333660768447587493382716106,0.00260906242967983428705086502545689,-0.00195372076841097163727673691924709,0.00142329508753345627404375086579584,-0.000979733532987650877168571875648996,0.000608355059029741647181307412082681,-0.000307359452503456643979932083820092,0.0000874442385102884182445865602618302,
-0.0207461084445201329864662811434272,0.0439800566806027462386107262155192,0.0755663734121840834838611362790007,0.0445364951904864345700116729990245,-0.00922091684260183471157923038803508,0.00535465088568774835817836341051524,-0.00365522679985131663224119457647232,0.00260442900234894375524301082650519,-0.00184200989476170492739286362165069,0.00124460812210767416235581390797846,-0.000763750235756611259863351602996257,0.000383103892798337037853784379416009,-0.000108591577934743383496452469989929,
-0.0198907528982510605465179672081930,0.0474094387268283867543203296582884,0.0661938972977494572894970911918178,0.0969774293976857866965958632022815,0.0519540118842221255781308048265132,-0.0100633070332503760077136218506629,0.00553442491474951858506263543603369,-0.00358522008285720277410984531537971,0.00240894627535956901766224577323685,-0.00157902463820694369584986417058936,0.000951119931434866800772660663683767,-0.000471841291130799781952598265558731,0.000132996200941124552109905578322486,
-0.0205039757594727670060681545998433,0.0450910064519209141654412218524936,0.0715749421921594625399608006277203,0.0848574338709379334336662073674475,0.113150057093106559270427818381431,0.0565707950657243096030225465099442,-0.0103514560922495229752504808065757,0.00539400389969417161174279062738912,-0.00329262769907881380106091466035036,0.00205038906740336088057757139497844,-0.00119902884864579980320098025955255,0.000584799095209111448818836774843047,-0.000163447833221850412977632958606346,
-0.0200379395811026762773049698442838,0.0468004290851373722985012660116026,0.0678786934544959035977382705879556,0.0918730747240793403196288054251039,0.0989622717612276794983509717814398,0.123214025135056194245784393996810,0.0581378883077184775486473788172090,-0.0100724350036075750397393009769219,0.00494575200721657165791063787158657,-0.00280008434310647117960545942705492,0.00155806165539771563406261784648011,-0.000739679166273148341290378034704055,0.000204062801555263482705826256209194,
-0.0204054502158797901729884290590994,0.0454759508236551125083920512020555,0.0706357839585394190350018686939883,0.0870226013135695082594457746030706,0.107200651467523064957322524313377,0.107747586231754447594302302392499,0.126627232707686478072545238440994,0.0565707950657243096030225465099442,-0.00924203332466230811416620872840460,0.00421555651003493570635713863060150,-0.00213818708226584330815991219328461,0.000969743466943309791769666124404934,-0.000261973376814827246057358499350264,
-0.0201090061817168152079008905221705,0.0465325912099950237391634862424573,0.0684856351784587524310282277707520,0.0906520150191798128358732101686384,0.101499077493084682138599363879790,0.116726810214305821980154938335268,0.110741351700687436512232122198384,0.123204897164698995213758714870551,0.0519540118842221255781308048265132,-0.00790443901671291755657251720423246,0.00324285781214416194230379724261791,-0.00134868880796416279710944168138988,0.000351249484406879213492828892300010,
-0.0203505939605926831435072485704830,0.0456776460260658869193571035974826,0.0702005053456502304916642400374320,0.0878283822588651949776675320900705,0.105750033663205956083654473274677,0.110537161129099675450802082193383,0.119931003415288271729535952210890,0.107786939245760870847866729609373,0.113128940611046085867840840041061,0.0445364951904864345700116729990245,-0.00612961830229046425206024784456496,0.00208069323826147771860016176137939,-0.000504106061862193226455485042934161,
-0.0201545581441476513417662095402312,0.0463681093713676806011908200607187,0.0688284000508638775846195810223531,0.0900527239139605200171919178736980,0.102484728680910794882217858787231,0.115095310899859590843321829939135,0.113666714185757120810243892608961,0.116625593468056303681920026847049,0.0990552776098906888116602324146851,0.0969360224482815548463708870962565,0.0347183775549468096159004442172179,-0.00400882562439936838541262514401512,0.000812054663011731746112169527908313,
-0.0203090540441620976608096625570768,0.0458256108306676235872630736872525,0.0699001006496815601191838777983468,0.0883321381495556829905025602256725,0.104972446214455558149170492281729,0.111705115483164759938902189802962,0.118143023016248269089785856275557,0.110759555143680981755270344898262,0.106950518494670596643365318117995,0.0850493136252994588913471848639544,0.0754800749353418536912829420318273,0.0230303749594321119786054439884493,-0.00165812593487157189221502827872504,
-0.0201984419226395678785236529177105,0.0462133262180762692937065024674326,0.0691367924846341737707705156370009,0.0895508372063009261849782501495942,0.103225315993429724085266803126409,0.114055173056925566120324926805965,0.115103582270203188969399423305010,0.114605876315424591269777284973875,0.102104959077291331908585129003226,0.0912912607650189964147324396881133,0.0666511393538308138267369707372856,0.0498338215041899551336074275416855,0.0101210011913289698800053980502465};
-
-initializer_list<double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934};
+initializer_list<long double> la={0.0101210011913289698800053980502465L,-0.00377307158532573117639653956478696L,0.00278561575606280540506391769715011L,-0.00221827038404612727470909369006428L,0.00180306469115291924767648064980046L,-0.00146428618397597206373219195398718L,0.00117219434523376612789533432940761L,-0.000913582925476946914279833786076516L,0.000682707775014527070994806526617237L,-0.000477846825328057044954904151545178L,0.000299962625259445461030372797434857L,-0.000152576299212045336495614490534017L,0.0000435604600183718814871431827825288L,
+0.0219001283175295116522258243792181L,0.0230303749594321119786054439884493L,-0.00604331982544823445948205359739159L,0.00402367675567341024867616113409459L,-0.00304249472622634548710370846496858L,0.00238203498776763745077474812162596L,-0.00186724640081131399249109864113950L,0.00143647464828385926714290321692637L,-0.00106442244601130699290888262870222L,0.000740852231417186149520785772376544L,-0.000463345539787940887382989363911043L,0.000235139088196600369947814289646073L,-0.0000670516615041579007988664565837295L,
+0.0194299477196462080138986265725847L,0.0500695755432635923426235131209137L,0.0347183775549468096159004442172179L,-0.00786303206730868570634754109820751L,0.00485274615855356234460137723834130L,-0.00348400333660768447587493382716106L,0.00260906242967983428705086502545689L,-0.00195372076841097163727673691924709L,0.00142329508753345627404375086579584L,-0.000979733532987650877168571875648996L,0.000608355059029741647181307412082681L,-0.000307359452503456643979932083820092L,0.0000874442385102884182445865602618302L,
+0.0207461084445201329864662811434272L,0.0439800566806027462386107262155192L,0.0755663734121840834838611362790007L,0.0445364951904864345700116729990245L,-0.00922091684260183471157923038803508L,0.00535465088568774835817836341051524L,-0.00365522679985131663224119457647232L,0.00260442900234894375524301082650519L,-0.00184200989476170492739286362165069L,0.00124460812210767416235581390797846L,-0.000763750235756611259863351602996257L,0.000383103892798337037853784379416009L,-0.000108591577934743383496452469989929L,
+0.0198907528982510605465179672081930L,0.0474094387268283867543203296582884L,0.0661938972977494572894970911918178L,0.0969774293976857866965958632022815L,0.0519540118842221255781308048265132L,-0.0100633070332503760077136218506629L,0.00553442491474951858506263543603369L,-0.00358522008285720277410984531537971L,0.00240894627535956901766224577323685L,-0.00157902463820694369584986417058936L,0.000951119931434866800772660663683767L,-0.000471841291130799781952598265558731L,0.000132996200941124552109905578322486L,
+0.0205039757594727670060681545998433L,0.0450910064519209141654412218524936L,0.0715749421921594625399608006277203L,0.0848574338709379334336662073674475L,0.113150057093106559270427818381431L,0.0565707950657243096030225465099442L,-0.0103514560922495229752504808065757L,0.00539400389969417161174279062738912L,-0.00329262769907881380106091466035036L,0.00205038906740336088057757139497844L,-0.00119902884864579980320098025955255L,0.000584799095209111448818836774843047L,-0.000163447833221850412977632958606346L,
+0.0200379395811026762773049698442838L,0.0468004290851373722985012660116026L,0.0678786934544959035977382705879556L,0.0918730747240793403196288054251039L,0.0989622717612276794983509717814398L,0.123214025135056194245784393996810L,0.0581378883077184775486473788172090L,-0.0100724350036075750397393009769219L,0.00494575200721657165791063787158657L,-0.00280008434310647117960545942705492L,0.00155806165539771563406261784648011L,-0.000739679166273148341290378034704055L,0.000204062801555263482705826256209194L,
+0.0204054502158797901729884290590994L,0.0454759508236551125083920512020555L,0.0706357839585394190350018686939883L,0.0870226013135695082594457746030706L,0.107200651467523064957322524313377L,0.107747586231754447594302302392499L,0.126627232707686478072545238440994L,0.0565707950657243096030225465099442L,-0.00924203332466230811416620872840460L,0.00421555651003493570635713863060150L,-0.00213818708226584330815991219328461L,0.000969743466943309791769666124404934L,-0.000261973376814827246057358499350264L,
+0.0201090061817168152079008905221705L,0.0465325912099950237391634862424573L,0.0684856351784587524310282277707520L,0.0906520150191798128358732101686384L,0.101499077493084682138599363879790L,0.116726810214305821980154938335268L,0.110741351700687436512232122198384L,0.123204897164698995213758714870551L,0.0519540118842221255781308048265132L,-0.00790443901671291755657251720423246L,0.00324285781214416194230379724261791L,-0.00134868880796416279710944168138988L,0.000351249484406879213492828892300010L,
+0.0203505939605926831435072485704830L,0.0456776460260658869193571035974826L,0.0702005053456502304916642400374320L,0.0878283822588651949776675320900705L,0.105750033663205956083654473274677L,0.110537161129099675450802082193383L,0.119931003415288271729535952210890L,0.107786939245760870847866729609373L,0.113128940611046085867840840041061L,0.0445364951904864345700116729990245L,-0.00612961830229046425206024784456496L,0.00208069323826147771860016176137939L,-0.000504106061862193226455485042934161L,
+0.0201545581441476513417662095402312L,0.0463681093713676806011908200607187L,0.0688284000508638775846195810223531L,0.0900527239139605200171919178736980L,0.102484728680910794882217858787231L,0.115095310899859590843321829939135L,0.113666714185757120810243892608961L,0.116625593468056303681920026847049L,0.0990552776098906888116602324146851L,0.0969360224482815548463708870962565L,0.0347183775549468096159004442172179L,-0.00400882562439936838541262514401512L,0.000812054663011731746112169527908313L,
+0.0203090540441620976608096625570768L,0.0458256108306676235872630736872525L,0.0699001006496815601191838777983468L,0.0883321381495556829905025602256725L,0.104972446214455558149170492281729L,0.111705115483164759938902189802962L,0.118143023016248269089785856275557L,0.110759555143680981755270344898262L,0.106950518494670596643365318117995L,0.0850493136252994588913471848639544L,0.0754800749353418536912829420318273L,0.0230303749594321119786054439884493L,-0.00165812593487157189221502827872504L,
+0.0201984419226395678785236529177105L,0.0462133262180762692937065024674326L,0.0691367924846341737707705156370009L,0.0895508372063009261849782501495942L,0.103225315993429724085266803126409L,0.114055173056925566120324926805965L,0.115103582270203188969399423305010L,0.114605876315424591269777284973875L,0.102104959077291331908585129003226L,0.0912912607650189964147324396881133L,0.0666511393538308138267369707372856L,0.0498338215041899551336074275416855L,0.0101210011913289698800053980502465L};
+
+initializer_list<long double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824L,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292L,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -468,22 +468,22 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<14,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00877986508293796575795821903454795,-0.00328311623042934086798688316216252,0.00243769977190523648369753867532496,-0.00195809929677580446849837789111997,0.00161116775847946349648444265711885,-0.00133052156270291506772693351446155,0.00108963888466220974785039375877712,-0.000876302005740451815114376127002123,0.000684693691039925453930883284840597,-0.000512348412842921048968187481164774,0.000358848231298344463716262218571774,-0.000225331048392672084870452601877430,0.000114628208600992289517695941405055,-0.0000327274204462017607888581448243350,
-0.0189981535901935692032565753457345,0.0200395217899400524514083192657136,-0.00528828692877905772827154588731698,0.00355141173896972234311116783155499,-0.00271822648688944300089230331346735,0.00216386043522498030367910884029325,-0.00173506996416364108314035850590390,0.00137711257617749357667294331528682,-0.00106673647746380315042748249637517,0.000793568026138729677545338924362882,-0.000553593219336437327016306954809997,0.000346681281269539277437669257943583,-0.000176059960671760509587943072474205,0.0000502217676032972980292477605208439,
-0.0168552230279503139456460219204252,0.0435673907696408731646233759168512,0.0303796426719757961723537022681192,-0.00693923175519035119345305019603769,0.00433440470550090540006755914465584,-0.00316351532295943580063171436089832,0.00242277289054359102627535965473214,-0.00187121355051888424772368728276770,0.00142453006383964222688942439349999,-0.00104760430312298289632470226583768,0.000725153252625853259256047396927371,-0.000451771845981418753779397766857358,0.000228683634142081114593321789361646,-0.0000651217733284800126896319373713546,
-0.0179971729465900660094843746827399,0.0382681743915636711701172340552138,0.0661233345536871905749021814089698,0.0393007917895483836424004846559605,-0.00823373536491335826742210350287508,0.00485948742725785845997735856907124,-0.00339128378072244485517029851665092,0.00249119959912946624822510381855310,-0.00184021037875169195812940290871736,0.00132745819947615736530485315118822,-0.000907277121182312713726071572431614,0.000560545874372256964826230090779137,-0.000282277859465565741926729500486366,0.0000801673175675880271268840590184610,
-0.0172547617984066298930832342738616,0.0412533979917853903899376777087094,0.0579204623738544047817452791920076,0.0855778714769197311989090537154116,0.0463845993694844534354291475312893,-0.00912812000306882147124445709482786,0.00512982390658682692428320009930379,-0.00342399508689323368479917773962021,0.00240100771220400841219767118394390,-0.00167859385926087166843659137677713,0.00112473016941185443769237507083812,-0.000686129552116775559003003408177509,0.000342844909038254845086894540875276,-0.0000969793854288979175266629724320737,
-0.0177874472666498987219915789897631,0.0392337598958662474135725228744003,0.0626327197421615393472331900914912,0.0748787154811760310330609299933730,0.101022753500743341641028589080367,0.0512996159303239009914810164153045,-0.00958636975953160870951134850919731,0.00514289425654003773414845707324228,-0.00327298200285945016047811109921003,0.00217096714651606515875789781947959,-0.00140979076807348690067732075971781,0.000843606984771863475085728612171211,-0.000416706606795931371592766062971839,0.000117184468566671408063723397267082,
-0.0173819598204594481529414082955742,0.0407251338880214787650397745445252,0.0593916061259882977498028646063490,0.0810781747135810532747494681898616,0.0883477443625841108910902653689403,0.111737358469799304747462009589509,0.0538159633657894475489691108290650,-0.00958944502746706154293216025288384,0.00490242083631428848742035750691602,-0.00295118084701215774738375533809831,0.00181927648653469995209335198496095,-0.00105631852469745200915360223396650,0.000512797239918080511166826616528849,-0.000142965263485369814388244817198644,
-0.0177026954293613013303046828862945,0.0395662463399620243916498119148983,0.0618156038686490443538610067702048,0.0767823070925620673327076173269601,0.0957203795859810646182420504006768,0.0976968110243335134955416753236930,0.117221371759045956640870381911014,0.0538159633657894475489691108290650,-0.00913812660915150276449997675889980,0.00442145437638479597976802969363824,-0.00247659113448428598994849887794055,0.00136767921796329459490453992988933,-0.000646090308141373862223136013098015,0.000177770345416483362975029773521681,
-0.0174425456973092601078527146718288,0.0404957501866760362744094045943990,0.0599156783591797288696216759240671,0.0800113743471702541854782900716389,0.0905982315924528417121003972430989,0.105872213863507252143440143929819,0.102489032475038857363789764584888,0.117218296491110503807449570167327,0.0512996159303239009914810164153045,-0.00825355476177443477017029401778844,0.00372286809792073625174003931854807,-0.00187343439820994700252578555525291,0.000845283684013857489244115657026879,-0.000227717100773967206075140920667221,
-0.0176567095513048294334431010415280,0.0397361986708418500577297439905519,0.0614454148960683679037104079444158,0.0774768534096849128471085942410829,0.0944477925982297785392948864393556,0.100198224148443793570764361646665,0.111055921818472128782737399397750,0.102502102824992068173655021558826,0.111727351863716623454206489925437,0.0463845993694844534354291475312893,-0.00697628789782296391410808440349049,0.00283882297009718756296212534423074,-0.00117435441190528548712103917728224,0.000304968367469301622833203795234327,
-0.0174795628483083434887895540100774,0.0403613214393456706447433680319135,0.0601987394695793353798811744454592,0.0795088607002790799985270408843527,0.0914417405394927495055534419113903,0.104439442239399493941091435739326,0.105140727132449428849713117839577,0.111023210512301339953108520174781,0.0977397444333899435229846742615378,0.101002934103882265138280398565454,0.0393007917895483836424004846559605,-0.00536404920973559823019477687273153,0.00181086918831643373269940447621332,-0.000437442780714134493567936613643993,
-0.0176248519392044115286060700064672,0.0398503599457380237882233167420655,0.0612110571899330110984868023030957,0.0778764303264709140255449219149937,0.0938168030420918897671829973284162,0.101174701796808159756072608437109,0.109503140282097779345661908940898,0.105209153841035304071662862003398,0.105762747183607237783593747191507,0.0884347940334680014707907359179227,0.0855408153342871184782540195079588,0.0303796426719757961723537022681192,-0.00348834718976076826180673738542408,0.000704507137925617570270416148670639,
-0.0175095083982726342178871903085750,0.0402551035405518654124045816039014,0.0604126040626820530672697352782947,0.0791551767984332046118172762667311,0.0919756307128301771933129561382156,0.103665968338111605133389515326984,0.106254814155401401521265278342843,0.109366996695742536181078580164034,0.100435371425422821679282923990316,0.0954874252258583498717505983760459,0.0750501718401270449416898014803661,0.0660475722727306500729789504235553,0.0200395217899400524514083192657136,-0.00143842342431763768734013727663862,
-0.0175924575863221332767052962139202,0.0399644153712791126132989425900221,0.0609846163923442644295778571381157,0.0782427353477984228210847070933493,0.0932815471518118279198264825437433,0.101914538169607876529031149545768,0.108508228737319346913052597785132,0.106542287846916685350087827899353,0.103929753423350717050688966345071,0.0911580309804894433743738524054597,0.0805596828758725717532993472030411,0.0583215855720463558610098658609134,0.0433621598103094457708035216935897,0.00877986508293796575795821903454795};
-
-initializer_list<double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379};
+initializer_list<long double> la={0.00877986508293796575795821903454795L,-0.00328311623042934086798688316216252L,0.00243769977190523648369753867532496L,-0.00195809929677580446849837789111997L,0.00161116775847946349648444265711885L,-0.00133052156270291506772693351446155L,0.00108963888466220974785039375877712L,-0.000876302005740451815114376127002123L,0.000684693691039925453930883284840597L,-0.000512348412842921048968187481164774L,0.000358848231298344463716262218571774L,-0.000225331048392672084870452601877430L,0.000114628208600992289517695941405055L,-0.0000327274204462017607888581448243350L,
+0.0189981535901935692032565753457345L,0.0200395217899400524514083192657136L,-0.00528828692877905772827154588731698L,0.00355141173896972234311116783155499L,-0.00271822648688944300089230331346735L,0.00216386043522498030367910884029325L,-0.00173506996416364108314035850590390L,0.00137711257617749357667294331528682L,-0.00106673647746380315042748249637517L,0.000793568026138729677545338924362882L,-0.000553593219336437327016306954809997L,0.000346681281269539277437669257943583L,-0.000176059960671760509587943072474205L,0.0000502217676032972980292477605208439L,
+0.0168552230279503139456460219204252L,0.0435673907696408731646233759168512L,0.0303796426719757961723537022681192L,-0.00693923175519035119345305019603769L,0.00433440470550090540006755914465584L,-0.00316351532295943580063171436089832L,0.00242277289054359102627535965473214L,-0.00187121355051888424772368728276770L,0.00142453006383964222688942439349999L,-0.00104760430312298289632470226583768L,0.000725153252625853259256047396927371L,-0.000451771845981418753779397766857358L,0.000228683634142081114593321789361646L,-0.0000651217733284800126896319373713546L,
+0.0179971729465900660094843746827399L,0.0382681743915636711701172340552138L,0.0661233345536871905749021814089698L,0.0393007917895483836424004846559605L,-0.00823373536491335826742210350287508L,0.00485948742725785845997735856907124L,-0.00339128378072244485517029851665092L,0.00249119959912946624822510381855310L,-0.00184021037875169195812940290871736L,0.00132745819947615736530485315118822L,-0.000907277121182312713726071572431614L,0.000560545874372256964826230090779137L,-0.000282277859465565741926729500486366L,0.0000801673175675880271268840590184610L,
+0.0172547617984066298930832342738616L,0.0412533979917853903899376777087094L,0.0579204623738544047817452791920076L,0.0855778714769197311989090537154116L,0.0463845993694844534354291475312893L,-0.00912812000306882147124445709482786L,0.00512982390658682692428320009930379L,-0.00342399508689323368479917773962021L,0.00240100771220400841219767118394390L,-0.00167859385926087166843659137677713L,0.00112473016941185443769237507083812L,-0.000686129552116775559003003408177509L,0.000342844909038254845086894540875276L,-0.0000969793854288979175266629724320737L,
+0.0177874472666498987219915789897631L,0.0392337598958662474135725228744003L,0.0626327197421615393472331900914912L,0.0748787154811760310330609299933730L,0.101022753500743341641028589080367L,0.0512996159303239009914810164153045L,-0.00958636975953160870951134850919731L,0.00514289425654003773414845707324228L,-0.00327298200285945016047811109921003L,0.00217096714651606515875789781947959L,-0.00140979076807348690067732075971781L,0.000843606984771863475085728612171211L,-0.000416706606795931371592766062971839L,0.000117184468566671408063723397267082L,
+0.0173819598204594481529414082955742L,0.0407251338880214787650397745445252L,0.0593916061259882977498028646063490L,0.0810781747135810532747494681898616L,0.0883477443625841108910902653689403L,0.111737358469799304747462009589509L,0.0538159633657894475489691108290650L,-0.00958944502746706154293216025288384L,0.00490242083631428848742035750691602L,-0.00295118084701215774738375533809831L,0.00181927648653469995209335198496095L,-0.00105631852469745200915360223396650L,0.000512797239918080511166826616528849L,-0.000142965263485369814388244817198644L,
+0.0177026954293613013303046828862945L,0.0395662463399620243916498119148983L,0.0618156038686490443538610067702048L,0.0767823070925620673327076173269601L,0.0957203795859810646182420504006768L,0.0976968110243335134955416753236930L,0.117221371759045956640870381911014L,0.0538159633657894475489691108290650L,-0.00913812660915150276449997675889980L,0.00442145437638479597976802969363824L,-0.00247659113448428598994849887794055L,0.00136767921796329459490453992988933L,-0.000646090308141373862223136013098015L,0.000177770345416483362975029773521681L,
+0.0174425456973092601078527146718288L,0.0404957501866760362744094045943990L,0.0599156783591797288696216759240671L,0.0800113743471702541854782900716389L,0.0905982315924528417121003972430989L,0.105872213863507252143440143929819L,0.102489032475038857363789764584888L,0.117218296491110503807449570167327L,0.0512996159303239009914810164153045L,-0.00825355476177443477017029401778844L,0.00372286809792073625174003931854807L,-0.00187343439820994700252578555525291L,0.000845283684013857489244115657026879L,-0.000227717100773967206075140920667221L,
+0.0176567095513048294334431010415280L,0.0397361986708418500577297439905519L,0.0614454148960683679037104079444158L,0.0774768534096849128471085942410829L,0.0944477925982297785392948864393556L,0.100198224148443793570764361646665L,0.111055921818472128782737399397750L,0.102502102824992068173655021558826L,0.111727351863716623454206489925437L,0.0463845993694844534354291475312893L,-0.00697628789782296391410808440349049L,0.00283882297009718756296212534423074L,-0.00117435441190528548712103917728224L,0.000304968367469301622833203795234327L,
+0.0174795628483083434887895540100774L,0.0403613214393456706447433680319135L,0.0601987394695793353798811744454592L,0.0795088607002790799985270408843527L,0.0914417405394927495055534419113903L,0.104439442239399493941091435739326L,0.105140727132449428849713117839577L,0.111023210512301339953108520174781L,0.0977397444333899435229846742615378L,0.101002934103882265138280398565454L,0.0393007917895483836424004846559605L,-0.00536404920973559823019477687273153L,0.00181086918831643373269940447621332L,-0.000437442780714134493567936613643993L,
+0.0176248519392044115286060700064672L,0.0398503599457380237882233167420655L,0.0612110571899330110984868023030957L,0.0778764303264709140255449219149937L,0.0938168030420918897671829973284162L,0.101174701796808159756072608437109L,0.109503140282097779345661908940898L,0.105209153841035304071662862003398L,0.105762747183607237783593747191507L,0.0884347940334680014707907359179227L,0.0855408153342871184782540195079588L,0.0303796426719757961723537022681192L,-0.00348834718976076826180673738542408L,0.000704507137925617570270416148670639L,
+0.0175095083982726342178871903085750L,0.0402551035405518654124045816039014L,0.0604126040626820530672697352782947L,0.0791551767984332046118172762667311L,0.0919756307128301771933129561382156L,0.103665968338111605133389515326984L,0.106254814155401401521265278342843L,0.109366996695742536181078580164034L,0.100435371425422821679282923990316L,0.0954874252258583498717505983760459L,0.0750501718401270449416898014803661L,0.0660475722727306500729789504235553L,0.0200395217899400524514083192657136L,-0.00143842342431763768734013727663862L,
+0.0175924575863221332767052962139202L,0.0399644153712791126132989425900221L,0.0609846163923442644295778571381157L,0.0782427353477984228210847070933493L,0.0932815471518118279198264825437433L,0.101914538169607876529031149545768L,0.108508228737319346913052597785132L,0.106542287846916685350087827899353L,0.103929753423350717050688966345071L,0.0911580309804894433743738524054597L,0.0805596828758725717532993472030411L,0.0583215855720463558610098658609134L,0.0433621598103094457708035216935897L,0.00877986508293796575795821903454795L};
+
+initializer_list<long double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104L,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -491,23 +491,23 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<15,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00768831049902931708865709839430110,-0.00288207652296439580063546956640496,0.00214977135688850644287947195441230,-0.00173884965380298083558788216578044,0.00144470413915726138708869767716335,-0.00120875124593688546658128485877837,-0.000829198279957270056165475383330968,0.000668820975529917187940369682561850,-0.000523450351172725058136595675165461,0.000392046730691602014114395777496628,-0.000274715621754918118582794977518628,0.000172538127706577039763717164693461,-0.0000877790602645868752966820187805339,0.0000250623437545120994878446872165364,0.00100730755285335470627173001460784,
-0.0166362227509783404984961450415114,0.0175915118720270311773168541126668,-0.00466351386567139920910945192640114,0.00315354205167060177481027904195496,-0.00243709364541861248927066133075671,0.00196545995211755642319833638016242,0.00130260473646139385678049832465133,-0.00104148556214203561932207449711480,0.000810228194455859749132304352513766,-0.000604288995041522705160129596905066,0.000422194068522064401364461722620928,-0.000264629686030523967638173133559916,0.000134457272941865614537600421636876,-0.0000383635400718623012778712595397459,-0.00160354180515170935773759150854591,
-0.0147596657935835599495579379109451,0.0382453177464055777555361371553767,0.0267898051167929837529673866714673,-0.00616125782189826452701945604676958,0.00388540778485748995650797025288780,-0.00287258727158500903381330889237036,-0.00176882660434387913394492107044070,0.00138957805663066645209914875567541,-0.00106833441025736725849353335977303,0.000790333943391873816513817513980545,-0.000549070190929407584415480432400551,0.000342837152366744899109634183981507,-0.000173768948419062931349295607481126,0.0000495161011043642971631230913928475,0.00223809184708612148925667948641971,
-0.0157597621061541406071917707671331,0.0335931318479854185736211582802462,0.0583100851091268661824035925215984,0.0348926694815385786119511986277571,-0.00737940946173976384827296895623885,0.00441096801812590706555516092206085,0.00235280924473860437078970068009314,-0.00179283158915975579588626926021054,0.00135144263633254211230345864810751,-0.000986609667339780165472251839726848,0.000679266000451239434163117754700047,-0.000421563716075716397819728976520931,0.000212853647458382933211580026679770,-0.0000605313101682632124896863746739518,-0.00313090802751342417934286012797411,
-0.0151094077411841340124542675513073,0.0362144152536475076570565761402277,0.0510754948901790939145299350867404,0.0759798064004408833045786853890249,0.0415673014542484833883002151203022,-0.00828277336540880503184844886533352,-0.00323039674394951171049944257284989,0.00233558196615176564298443910486194,-0.00170522856069432033507452748948227,0.00121948195415413587624329276381805,-0.000828185709088390761404758010888066,0.000509364129493923943341426134730871,-0.000255738444847295467362462157213771,0.0000725131747848474283504476134943536,0.00473286955543412436973698556430448,
-0.0155763030989084244329229244789970,0.0344401095551792856353578159705013,0.0552331478312634465959558708141656,0.0664782993761123615184061906266898,0.0905323400785462625916172751622854,0.0465402500038905527567001404666057,0.00484679298140696426300794637272217,-0.00317822423571163094902465918219191,0.00219973318684740140886793973388926,-0.00152302038826284084666941590870139,0.00101321847710032825541555137730759,-0.000614961686883209505797295930784541,0.000306254025292725873549587624150750,-0.0000864724368757241202958614665039038,-0.00883944340559603285861769562965557,
-0.0155025009302956829281881053093292,0.0347305608049307295822013036311998,0.0545152787351061594892301878123766,0.0681643199523595268233594122982296,0.0857860006893487479412995056538336,0.0886264983355843505212644083221176,0.0506445604813903182201550499918798,-0.00884395744970946354663335487841734,0.00445400167219675499213587261109381,-0.00265139778085178116469907541322919,0.00162101901071763040054298495728458,-0.000935668501520191983295414469441973,0.000452462939123332772432404594133889,-0.000125879932237048750873908520726956,0.108059700113265251774692518100337,
-0.0152729660096446532887154273776346,0.0355523462958812372687600312419467,0.0528291945367959129786560876927991,0.0710463622321110828606712156060207,0.0811775780039442352442256266787681,0.0960621911492772619098913177211643,0.110317896556901683222398533330108,0.0496078713317778941140295816109598,-0.00829283528898673480148119897698628,0.00396575402799720493942905295023015,-0.00220218558160831593772050076925001,0.00120863973412445964285627893313716,-0.000568634048293621479668241547644885,0.000156114201767673815646320252275934,0.0944637878373826340839046195961349,
-0.0154630934349343582976100582551061,0.0348767697187613364810841206011829,0.0541945719204691770117320692737192,0.0687721204859768289684868458782066,0.0846576232967598076232698461493058,0.0908807668209337041045323411993222,0.0964423279813736721773021536110375,0.108055186069151821086676858851575,0.0465402500038905527567001404666057,-0.00739773717004929581501684492168096,0.00330703958696479570549620662882437,-0.00165353759767747909002109747123093,0.000742914188874776719275892254832318,-0.000199682100849790255608727690394819,0.102393966899267419177083822404112,
-0.0153041078232737867489637491751079,0.0354387621889013578219961703825474,0.0530702461040920435625933472082038,0.0706135246721655479853071552664022,0.0819151209543428309003571374767864,0.0947857285684754258484748084226937,0.104519517706730148150809542556610,0.0944828731081216638583221776576152,0.101363273373189910545248729798545,0.0415673014542484833883002151203022,-0.00619446743736372608067628813351075,0.00250411534340687359140483825619426,-0.00103139150959344530242286791489404,0.000267213256874500164859929237294932,0.0968801606974040225850747241170577,
-0.0154371523082268973898038831632762,0.0349701700965956794214221281986539,0.0540011739496616839037545023194556,0.0691060729626259177897392795008141,0.0841212125758367469420726820803313,0.0917290573714485634010968222851039,0.0989363117180420320695203993036665,0.102346650691069212407402023349894,0.0886695319896551984478451200111506,0.0905140123702367306248733991968433,0.0348926694815385786119511986277571,-0.00473047487554089867646881917866378,0.00158989189606864378101254994508743,-0.000383141108095506429877573978530933,0.101008574252715544023945432482130,
-0.0153271048969542698801510736972094,0.0353567926924731252859830038328148,0.0532367730812192226068251391589531,0.0703344091540065648083178776879147,0.0823442689651050929600866127266239,0.0941488344180384727718938142929845,0.103057947567124515574255021054200,0.0969776508164696667388024837354999,0.0959530872793661145472135898255818,0.0792491951236394768200924599877166,0.0759465967849754217509218533022837,0.0267898051167929837529673866714673,-0.00306229400235151540090242893004299,0.000616955204475074227756258877657089,0.0978261646069251217759600144662443,
-0.0154149845381304964785920680481420,0.0350485664711121967400961078036968,0.0538442399196164914735729464764946,0.0693631448945550928225379355328932,0.0837388919035384894817605598375095,0.0922702718133252457642679765806976,0.0999865162263192425835296016591083,0.100819284468707497585796754730466,0.0911150400556635490902019445530490,0.0855716965539155792658710915713611,0.0666317969114065554490921182135592,0.0582431240992573667150442252693358,0.0175915118720270311773168541126668,-0.00125960175291970632118194825290922,0.100257228225697823847381237719034,
-0.0153515586543041220778263521013857,0.0352708028043186492299303902441142,0.0534070721058793904661710561782412,0.0700600545848320753424851922330328,0.0827425561778053647624860344631078,0.0936039503589538305715368766083769,0.102118319242737906496475575367091,0.0982084351107024335217874332073118,0.0942892512537179909799815657919898,0.0816898987693397053895117325634411,0.0715241886168801380594902794212946,0.0514298388766974610630553013885224,0.0380651002670184581552691777917386,0.00768831049902931708865709839430110,0.0985469216880258710401187935393578,
-0.0152205067962909603616678765363263,0.0357516577923476838343019497729786,0.0523709704994615078630784944097975,0.0719875245446854731616228980247642,0.0791688488804997618371713772903743,0.101373335296767840314881479910198,-0.00902877559412104678208843334634815,0.00475195482617315414415454362578481,-0.00298169114149615639649103678795289,0.00195702490455273153237480356183629,-0.00126102326903392563676881835050655,0.000750415696790054527278685650135590,-0.000369322551827174914126323016613038,0.000103654988413980888598769410967572,0.0496078713317778941140295816109598};
-
-initializer_list<double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573};
+initializer_list<long double> la={0.00768831049902931708865709839430110L,-0.00288207652296439580063546956640496L,0.00214977135688850644287947195441230L,-0.00173884965380298083558788216578044L,0.00144470413915726138708869767716335L,-0.00120875124593688546658128485877837L,-0.000829198279957270056165475383330968L,0.000668820975529917187940369682561850L,-0.000523450351172725058136595675165461L,0.000392046730691602014114395777496628L,-0.000274715621754918118582794977518628L,0.000172538127706577039763717164693461L,-0.0000877790602645868752966820187805339L,0.0000250623437545120994878446872165364L,0.00100730755285335470627173001460784L,
+0.0166362227509783404984961450415114L,0.0175915118720270311773168541126668L,-0.00466351386567139920910945192640114L,0.00315354205167060177481027904195496L,-0.00243709364541861248927066133075671L,0.00196545995211755642319833638016242L,0.00130260473646139385678049832465133L,-0.00104148556214203561932207449711480L,0.000810228194455859749132304352513766L,-0.000604288995041522705160129596905066L,0.000422194068522064401364461722620928L,-0.000264629686030523967638173133559916L,0.000134457272941865614537600421636876L,-0.0000383635400718623012778712595397459L,-0.00160354180515170935773759150854591L,
+0.0147596657935835599495579379109451L,0.0382453177464055777555361371553767L,0.0267898051167929837529673866714673L,-0.00616125782189826452701945604676958L,0.00388540778485748995650797025288780L,-0.00287258727158500903381330889237036L,-0.00176882660434387913394492107044070L,0.00138957805663066645209914875567541L,-0.00106833441025736725849353335977303L,0.000790333943391873816513817513980545L,-0.000549070190929407584415480432400551L,0.000342837152366744899109634183981507L,-0.000173768948419062931349295607481126L,0.0000495161011043642971631230913928475L,0.00223809184708612148925667948641971L,
+0.0157597621061541406071917707671331L,0.0335931318479854185736211582802462L,0.0583100851091268661824035925215984L,0.0348926694815385786119511986277571L,-0.00737940946173976384827296895623885L,0.00441096801812590706555516092206085L,0.00235280924473860437078970068009314L,-0.00179283158915975579588626926021054L,0.00135144263633254211230345864810751L,-0.000986609667339780165472251839726848L,0.000679266000451239434163117754700047L,-0.000421563716075716397819728976520931L,0.000212853647458382933211580026679770L,-0.0000605313101682632124896863746739518L,-0.00313090802751342417934286012797411L,
+0.0151094077411841340124542675513073L,0.0362144152536475076570565761402277L,0.0510754948901790939145299350867404L,0.0759798064004408833045786853890249L,0.0415673014542484833883002151203022L,-0.00828277336540880503184844886533352L,-0.00323039674394951171049944257284989L,0.00233558196615176564298443910486194L,-0.00170522856069432033507452748948227L,0.00121948195415413587624329276381805L,-0.000828185709088390761404758010888066L,0.000509364129493923943341426134730871L,-0.000255738444847295467362462157213771L,0.0000725131747848474283504476134943536L,0.00473286955543412436973698556430448L,
+0.0155763030989084244329229244789970L,0.0344401095551792856353578159705013L,0.0552331478312634465959558708141656L,0.0664782993761123615184061906266898L,0.0905323400785462625916172751622854L,0.0465402500038905527567001404666057L,0.00484679298140696426300794637272217L,-0.00317822423571163094902465918219191L,0.00219973318684740140886793973388926L,-0.00152302038826284084666941590870139L,0.00101321847710032825541555137730759L,-0.000614961686883209505797295930784541L,0.000306254025292725873549587624150750L,-0.0000864724368757241202958614665039038L,-0.00883944340559603285861769562965557L,
+0.0155025009302956829281881053093292L,0.0347305608049307295822013036311998L,0.0545152787351061594892301878123766L,0.0681643199523595268233594122982296L,0.0857860006893487479412995056538336L,0.0886264983355843505212644083221176L,0.0506445604813903182201550499918798L,-0.00884395744970946354663335487841734L,0.00445400167219675499213587261109381L,-0.00265139778085178116469907541322919L,0.00162101901071763040054298495728458L,-0.000935668501520191983295414469441973L,0.000452462939123332772432404594133889L,-0.000125879932237048750873908520726956L,0.108059700113265251774692518100337L,
+0.0152729660096446532887154273776346L,0.0355523462958812372687600312419467L,0.0528291945367959129786560876927991L,0.0710463622321110828606712156060207L,0.0811775780039442352442256266787681L,0.0960621911492772619098913177211643L,0.110317896556901683222398533330108L,0.0496078713317778941140295816109598L,-0.00829283528898673480148119897698628L,0.00396575402799720493942905295023015L,-0.00220218558160831593772050076925001L,0.00120863973412445964285627893313716L,-0.000568634048293621479668241547644885L,0.000156114201767673815646320252275934L,0.0944637878373826340839046195961349L,
+0.0154630934349343582976100582551061L,0.0348767697187613364810841206011829L,0.0541945719204691770117320692737192L,0.0687721204859768289684868458782066L,0.0846576232967598076232698461493058L,0.0908807668209337041045323411993222L,0.0964423279813736721773021536110375L,0.108055186069151821086676858851575L,0.0465402500038905527567001404666057L,-0.00739773717004929581501684492168096L,0.00330703958696479570549620662882437L,-0.00165353759767747909002109747123093L,0.000742914188874776719275892254832318L,-0.000199682100849790255608727690394819L,0.102393966899267419177083822404112L,
+0.0153041078232737867489637491751079L,0.0354387621889013578219961703825474L,0.0530702461040920435625933472082038L,0.0706135246721655479853071552664022L,0.0819151209543428309003571374767864L,0.0947857285684754258484748084226937L,0.104519517706730148150809542556610L,0.0944828731081216638583221776576152L,0.101363273373189910545248729798545L,0.0415673014542484833883002151203022L,-0.00619446743736372608067628813351075L,0.00250411534340687359140483825619426L,-0.00103139150959344530242286791489404L,0.000267213256874500164859929237294932L,0.0968801606974040225850747241170577L,
+0.0154371523082268973898038831632762L,0.0349701700965956794214221281986539L,0.0540011739496616839037545023194556L,0.0691060729626259177897392795008141L,0.0841212125758367469420726820803313L,0.0917290573714485634010968222851039L,0.0989363117180420320695203993036665L,0.102346650691069212407402023349894L,0.0886695319896551984478451200111506L,0.0905140123702367306248733991968433L,0.0348926694815385786119511986277571L,-0.00473047487554089867646881917866378L,0.00158989189606864378101254994508743L,-0.000383141108095506429877573978530933L,0.101008574252715544023945432482130L,
+0.0153271048969542698801510736972094L,0.0353567926924731252859830038328148L,0.0532367730812192226068251391589531L,0.0703344091540065648083178776879147L,0.0823442689651050929600866127266239L,0.0941488344180384727718938142929845L,0.103057947567124515574255021054200L,0.0969776508164696667388024837354999L,0.0959530872793661145472135898255818L,0.0792491951236394768200924599877166L,0.0759465967849754217509218533022837L,0.0267898051167929837529673866714673L,-0.00306229400235151540090242893004299L,0.000616955204475074227756258877657089L,0.0978261646069251217759600144662443L,
+0.0154149845381304964785920680481420L,0.0350485664711121967400961078036968L,0.0538442399196164914735729464764946L,0.0693631448945550928225379355328932L,0.0837388919035384894817605598375095L,0.0922702718133252457642679765806976L,0.0999865162263192425835296016591083L,0.100819284468707497585796754730466L,0.0911150400556635490902019445530490L,0.0855716965539155792658710915713611L,0.0666317969114065554490921182135592L,0.0582431240992573667150442252693358L,0.0175915118720270311773168541126668L,-0.00125960175291970632118194825290922L,0.100257228225697823847381237719034L,
+0.0153515586543041220778263521013857L,0.0352708028043186492299303902441142L,0.0534070721058793904661710561782412L,0.0700600545848320753424851922330328L,0.0827425561778053647624860344631078L,0.0936039503589538305715368766083769L,0.102118319242737906496475575367091L,0.0982084351107024335217874332073118L,0.0942892512537179909799815657919898L,0.0816898987693397053895117325634411L,0.0715241886168801380594902794212946L,0.0514298388766974610630553013885224L,0.0380651002670184581552691777917386L,0.00768831049902931708865709839430110L,0.0985469216880258710401187935393578L,
+0.0152205067962909603616678765363263L,0.0357516577923476838343019497729786L,0.0523709704994615078630784944097975L,0.0719875245446854731616228980247642L,0.0791688488804997618371713772903743L,0.101373335296767840314881479910198L,-0.00902877559412104678208843334634815L,0.00475195482617315414415454362578481L,-0.00298169114149615639649103678795289L,0.00195702490455273153237480356183629L,-0.00126102326903392563676881835050655L,0.000750415696790054527278685650135590L,-0.000369322551827174914126323016613038L,0.000103654988413980888598769410967572L,0.0496078713317778941140295816109598L};
+
+initializer_list<long double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946L,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435L,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -515,24 +515,24 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<16,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00678811485293852371294514311400453,-0.00254981560166642060794569067228638,0.00190909917813672352877801175229420,0.00130038636167335289131149058789750,-0.00109941397810467496743881733363378,0.000928810382461165787713007929583067,-0.000778400292638016970213471818843129,0.000642913073058191572480402310603516,-0.000519591764617300727073793902583398,0.000407121321020350344602879245931763,-0.000305112838734354656103913206664628,0.000213868739423092125277034461916634,0.0000683510931380568197932759579296331,-0.00155293958635445852534156874682570,-0.000134342751558613532849595377351067,-0.0000195156840005830940114810271390690,
-0.0146883557390946385758642521469263,0.0155633809846619732157109592485944,-0.00414132717596763996878861232853917,-0.00219345482567798016982323843681041,0.00178743918153624175343071841289058,-0.00147829989566992546596208722498436,0.00122248349189014866625509839220072,-0.00100078933565830982842652679008346,0.000803884822279940961686355000181995,-0.000627151628945023668023605338992174,0.000468554602991504934816921554325165,-0.000327706017463433279300993976240050,-0.000104467756262960729780516285484119,0.00281624066329179723974536344229666,0.000205533641770747263601026242237198,0.0000298119715119924600006781741765009,
-0.0130314887570029239238070779942658,0.0338360541380276180593656116868798,0.0237896279206231962024812769005616,0.00349652217282333762047567566641019,-0.00261183969113449188384120696449657,0.00206262230133837007802008817731631,-0.00165927082379871426000051462803313,0.00133445175087720853587420167870525,-0.00105910023568189585536302557340930,0.000819360728618994732230322769157078,-0.000608529289730636770195138989976567,0.000423816016176219956789937505986881,0.000134461891657840509651754065444609,-0.00550189263400219470130649699861349,-0.000265040935248507636968787866946170,-0.0000383332614651404512547242794488369,
-0.0133402027362754284067900662363016,0.0320395557786961649790658295553046,0.0453551063258562077032403018991998,0.0373989972041441830203754326368696,-0.00752716211388616522865856954022408,0.00435798231923588344843112214714441,-0.00302623842372018278324271394385074,0.00223860976756049347672080923707275,-0.00168603154019661600337826224358255,0.00125982769450141872687683280008835,-0.000913650835738432921668043535352149,0.000625934326460294421810833241733622,0.000194986345721210110687336877989096,0.0678462253281563804520834767661078,-0.000387087528108609216096437675937933,-0.0000553795862795328163738964832596964,
-0.0137527040949456381585719692773963,0.0304689428780194995010284424119904,0.0490485387199112662446557436788485,0.0814547479489546900093434676951639,0.0422891298487506345473280197575900,-0.00813602844568463378031886725894453,0.00453707368665636325875087328546242,-0.00304264485970265102036782781614618,0.00217120095070617941088324752289254,-0.00156962068732266188109902536961831,0.00111414665170165347439732078861472,-0.000752443887085733211963936880960639,-0.000230806350741480777897190755212045,0.0593603918070741529829473498398750,0.000460929012640643666572498339346957,0.0000653498025627462459581939919122352,
-0.0134381190018423601612728088869929,0.0316307469463899425607317444310215,0.0465043796221450675754501548802689,0.0712277617588559187531155126205067,0.0921151518921634601747533085146769,0.0456508537612308972166909169923050,-0.00844642793523074838713993385383526,0.00454380119920973210288173064487636,-0.00293743652117923594369543773037534,0.00201131394852731722720980289781172,-0.00138126417498597858451122992075628,0.000913338905274806437438626010877776,0.000274062032275837566195147338256161,0.0642830051583429101538245285291243,-0.000551919591017902593455885724942517,-0.0000772613934738410359920452470569326,
-0.0136877916707669093796072977755514,0.0307250535496773673535467999086984,0.0484126854179133761310679478949778,0.0771876047046273585479673839730614,0.0805272007369102555810475990728894,0.0994428614738752770173381402428347,0.0473626526137671240713491808020708,-0.00844803342103768353509484825593283,0.00437957742267448243151600841104754,-0.00271671446709042054123135194433941,0.00176767465118347190532670583864947,-0.00113163758564593222063565130415360,-0.000328859657486953683278381006855350,0.0608634670250274359810760616176631,0.000670277294016365106867027648281658,0.0000921436520028463808704116130765519,
-0.0134840860538742010450198746149325,0.0314556216268109001147002995040442,0.0469089785472300272980955261528415,0.0730303197571048941354241594350898,0.0872949741645916896358873914595194,0.0869221300997873120018658255735624,0.103173338648571931677793209860074,0.0473626526137671240713491808020708,-0.00814115395141348258395630625822473,0.00405105896059101351360844044229058,-0.00238961029633899250721651869932213,0.00145101860273950004516207947834509,0.000401708419646579077875118588490492,0.0634461232134128682468737924001618,-0.000833429576666983726105394093854658,-0.000111561964889861953717011547542351,
-0.0136534910993508884618823314750660,0.0308526999370481088652267711589327,0.0481311754322642949984184395260656,0.0761792585832743446252620951944955,0.0825669457489739518674462366173683,0.0942391440436410303770772717149853,0.0901815040283245160398166309592652,0.103171733162764996529838295457977,0.0456508537612308972166909169923050,-0.00753689219466219108009726899949692,0.00357023264943244728763535265323259,-0.00196851953057597412758638743311610,-0.000503984977065996129309825933832687,0.0614011467224921295887995150851304,0.00107487621910132482951239892085417,0.000138110704034687264617477341016161,
-0.0135108799033143011799320922360968,0.0313575683200654272093191092524009,0.0471183268286057487383900554617762,0.0736838477565867125663535444851246,0.0861478803848239309757550648847983,0.0891305065717556150224985864617174,0.0977679500872368991630661894202877,0.0901882315408778848839474883186791,0.0994377359681464282137007012435545,0.0422891298487506345473280197575900,-0.00665675354066632396859260242142458,0.00295409382069278304329079125613317,0.000657819091304446930393476085198443,0.0630669295148526692382020779769688,-0.00146928287866487383969318987772537,-0.000176474389068590732681683049387217,
-0.0136316092921565802422641827112687,0.0309317756236027363207345816191998,0.0479663433693550016210589914770610,0.0757116452440267989624189088090914,0.0833184320029998503677792067150916,0.0929877390626584104367600962281925,0.0924866954599737546659775523670688,0.0977515436512544309259410755479923,0.0869437252032259109849507118374656,0.0921054218113874343233146090554041,0.0373989972041441830203754326368696,-0.00553173970038944442584533567009958,-0.000912793809372218547643911058115780,0.0616885513013066416044273078542746,0.00222414951539018470172225190192333,0.000236026969601619019100219991707471,
-0.0135296349036562863191162942201955,0.0312904546821617165141440676077688,0.0472556577169880921728028129867975,0.0740466661773180896227734476220056,0.0855995373963959978740743695689147,0.0899635050040873503460093591141703,0.0964455266917309385424293315073437,0.0925195872688501219803829673392555,0.0941859356858218591189075637583719,0.0805687246460556153515767050519785,0.0814379117727585345112376205942748,0.0311572428138834680131190705480041,0.00140674278045478759427331892975439,0.0628342944281682934073314379887084,-0.00420088450714280999606686330035426,-0.000338333283686824424560906113468200,
-0.0135464177343650549658896080538326,0.0312312297255869071612024347826730,0.0473737221994756451413615275588859,0.0743294398052968611059339437194141,0.0852054113264462927626796448541722,0.0904978227001818534716954789844280,0.0957260945631925579711248883942250,0.0935028217356440994764432632119408,0.0927800074181317198993439212095943,0.0827908205159650273412253211022894,0.0769914492339663462105741037105497,0.0594982449644751387864927776537115,0.0155633809846619732157109592485944,0.0626421916452303693055391350722483,0.0517205830172140323737511661296623,-0.00111212603321759114997396591891728,
-0.0139145629895638718504511923414773,0.0297200191888691588371485995674345,0.0517801403483892024010294171014774,-0.00663991736447016847048675532053550,0.00400953505144565374307933446320152,-0.00288422816336006468552572977376197,0.00220571795868412616231539426488608,-0.00172022146419669039973096990320212,0.00133820251837444408737247487043966,-0.00102127769889472877941833005373477,0.000751328230970276417977417651733669,-0.000519808800401357381093296892700162,-0.000163692712837770082722149110579910,0.0311572428138834680131190705480041,0.000323598124258300232159740814325638,0.0000465948022207611067739920078135380,
-0.0136145629673421878771450105074579,0.0309923000776661059217701644317442,0.0478442967764949000419313416680693,0.0754065236980190028109460042637158,0.0837588989688822743624257167460229,0.0923608077581436902887448595580193,0.0933908534766570396068241599254363,0.0963845760513329624026988762321747,0.0892390852211234243553617458072937,0.0871900993886357609784972464796766,0.0713014722354650284202751896073291,0.0678163782617691307275446380946217,-0.00270929216870367162794369318969099,0.0618906696115907160694482035900213,0.0237896279206231962024812769005616,0.000544740948874123502083208233743262,
-0.0135957453898776305199017672551481,0.0310584108761858896116286425392592,0.0477135985928050059378121491784742,0.0751031072470227206968547784804039,0.0841711383764809187500531602692482,0.0918212992870790951604556278871934,0.0940823921544760565702179592935380,0.0955037055201722651129118334229847,0.0903728971400006286456688260550269,0.0856776736756059440620948568488138,0.0734976080466150131494393746858418,0.0638674252141213945515797098428339,0.0336765775709903670393676091694752,0.0621006168883438439009611066340916,0.0456701566631096688761845420488289,0.00678811485293852371294514311400453};
-
-initializer_list<double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404};
+initializer_list<long double> la={0.00678811485293852371294514311400453L,-0.00254981560166642060794569067228638L,0.00190909917813672352877801175229420L,0.00130038636167335289131149058789750L,-0.00109941397810467496743881733363378L,0.000928810382461165787713007929583067L,-0.000778400292638016970213471818843129L,0.000642913073058191572480402310603516L,-0.000519591764617300727073793902583398L,0.000407121321020350344602879245931763L,-0.000305112838734354656103913206664628L,0.000213868739423092125277034461916634L,0.0000683510931380568197932759579296331L,-0.00155293958635445852534156874682570L,-0.000134342751558613532849595377351067L,-0.0000195156840005830940114810271390690L,
+0.0146883557390946385758642521469263L,0.0155633809846619732157109592485944L,-0.00414132717596763996878861232853917L,-0.00219345482567798016982323843681041L,0.00178743918153624175343071841289058L,-0.00147829989566992546596208722498436L,0.00122248349189014866625509839220072L,-0.00100078933565830982842652679008346L,0.000803884822279940961686355000181995L,-0.000627151628945023668023605338992174L,0.000468554602991504934816921554325165L,-0.000327706017463433279300993976240050L,-0.000104467756262960729780516285484119L,0.00281624066329179723974536344229666L,0.000205533641770747263601026242237198L,0.0000298119715119924600006781741765009L,
+0.0130314887570029239238070779942658L,0.0338360541380276180593656116868798L,0.0237896279206231962024812769005616L,0.00349652217282333762047567566641019L,-0.00261183969113449188384120696449657L,0.00206262230133837007802008817731631L,-0.00165927082379871426000051462803313L,0.00133445175087720853587420167870525L,-0.00105910023568189585536302557340930L,0.000819360728618994732230322769157078L,-0.000608529289730636770195138989976567L,0.000423816016176219956789937505986881L,0.000134461891657840509651754065444609L,-0.00550189263400219470130649699861349L,-0.000265040935248507636968787866946170L,-0.0000383332614651404512547242794488369L,
+0.0133402027362754284067900662363016L,0.0320395557786961649790658295553046L,0.0453551063258562077032403018991998L,0.0373989972041441830203754326368696L,-0.00752716211388616522865856954022408L,0.00435798231923588344843112214714441L,-0.00302623842372018278324271394385074L,0.00223860976756049347672080923707275L,-0.00168603154019661600337826224358255L,0.00125982769450141872687683280008835L,-0.000913650835738432921668043535352149L,0.000625934326460294421810833241733622L,0.000194986345721210110687336877989096L,0.0678462253281563804520834767661078L,-0.000387087528108609216096437675937933L,-0.0000553795862795328163738964832596964L,
+0.0137527040949456381585719692773963L,0.0304689428780194995010284424119904L,0.0490485387199112662446557436788485L,0.0814547479489546900093434676951639L,0.0422891298487506345473280197575900L,-0.00813602844568463378031886725894453L,0.00453707368665636325875087328546242L,-0.00304264485970265102036782781614618L,0.00217120095070617941088324752289254L,-0.00156962068732266188109902536961831L,0.00111414665170165347439732078861472L,-0.000752443887085733211963936880960639L,-0.000230806350741480777897190755212045L,0.0593603918070741529829473498398750L,0.000460929012640643666572498339346957L,0.0000653498025627462459581939919122352L,
+0.0134381190018423601612728088869929L,0.0316307469463899425607317444310215L,0.0465043796221450675754501548802689L,0.0712277617588559187531155126205067L,0.0921151518921634601747533085146769L,0.0456508537612308972166909169923050L,-0.00844642793523074838713993385383526L,0.00454380119920973210288173064487636L,-0.00293743652117923594369543773037534L,0.00201131394852731722720980289781172L,-0.00138126417498597858451122992075628L,0.000913338905274806437438626010877776L,0.000274062032275837566195147338256161L,0.0642830051583429101538245285291243L,-0.000551919591017902593455885724942517L,-0.0000772613934738410359920452470569326L,
+0.0136877916707669093796072977755514L,0.0307250535496773673535467999086984L,0.0484126854179133761310679478949778L,0.0771876047046273585479673839730614L,0.0805272007369102555810475990728894L,0.0994428614738752770173381402428347L,0.0473626526137671240713491808020708L,-0.00844803342103768353509484825593283L,0.00437957742267448243151600841104754L,-0.00271671446709042054123135194433941L,0.00176767465118347190532670583864947L,-0.00113163758564593222063565130415360L,-0.000328859657486953683278381006855350L,0.0608634670250274359810760616176631L,0.000670277294016365106867027648281658L,0.0000921436520028463808704116130765519L,
+0.0134840860538742010450198746149325L,0.0314556216268109001147002995040442L,0.0469089785472300272980955261528415L,0.0730303197571048941354241594350898L,0.0872949741645916896358873914595194L,0.0869221300997873120018658255735624L,0.103173338648571931677793209860074L,0.0473626526137671240713491808020708L,-0.00814115395141348258395630625822473L,0.00405105896059101351360844044229058L,-0.00238961029633899250721651869932213L,0.00145101860273950004516207947834509L,0.000401708419646579077875118588490492L,0.0634461232134128682468737924001618L,-0.000833429576666983726105394093854658L,-0.000111561964889861953717011547542351L,
+0.0136534910993508884618823314750660L,0.0308526999370481088652267711589327L,0.0481311754322642949984184395260656L,0.0761792585832743446252620951944955L,0.0825669457489739518674462366173683L,0.0942391440436410303770772717149853L,0.0901815040283245160398166309592652L,0.103171733162764996529838295457977L,0.0456508537612308972166909169923050L,-0.00753689219466219108009726899949692L,0.00357023264943244728763535265323259L,-0.00196851953057597412758638743311610L,-0.000503984977065996129309825933832687L,0.0614011467224921295887995150851304L,0.00107487621910132482951239892085417L,0.000138110704034687264617477341016161L,
+0.0135108799033143011799320922360968L,0.0313575683200654272093191092524009L,0.0471183268286057487383900554617762L,0.0736838477565867125663535444851246L,0.0861478803848239309757550648847983L,0.0891305065717556150224985864617174L,0.0977679500872368991630661894202877L,0.0901882315408778848839474883186791L,0.0994377359681464282137007012435545L,0.0422891298487506345473280197575900L,-0.00665675354066632396859260242142458L,0.00295409382069278304329079125613317L,0.000657819091304446930393476085198443L,0.0630669295148526692382020779769688L,-0.00146928287866487383969318987772537L,-0.000176474389068590732681683049387217L,
+0.0136316092921565802422641827112687L,0.0309317756236027363207345816191998L,0.0479663433693550016210589914770610L,0.0757116452440267989624189088090914L,0.0833184320029998503677792067150916L,0.0929877390626584104367600962281925L,0.0924866954599737546659775523670688L,0.0977515436512544309259410755479923L,0.0869437252032259109849507118374656L,0.0921054218113874343233146090554041L,0.0373989972041441830203754326368696L,-0.00553173970038944442584533567009958L,-0.000912793809372218547643911058115780L,0.0616885513013066416044273078542746L,0.00222414951539018470172225190192333L,0.000236026969601619019100219991707471L,
+0.0135296349036562863191162942201955L,0.0312904546821617165141440676077688L,0.0472556577169880921728028129867975L,0.0740466661773180896227734476220056L,0.0855995373963959978740743695689147L,0.0899635050040873503460093591141703L,0.0964455266917309385424293315073437L,0.0925195872688501219803829673392555L,0.0941859356858218591189075637583719L,0.0805687246460556153515767050519785L,0.0814379117727585345112376205942748L,0.0311572428138834680131190705480041L,0.00140674278045478759427331892975439L,0.0628342944281682934073314379887084L,-0.00420088450714280999606686330035426L,-0.000338333283686824424560906113468200L,
+0.0135464177343650549658896080538326L,0.0312312297255869071612024347826730L,0.0473737221994756451413615275588859L,0.0743294398052968611059339437194141L,0.0852054113264462927626796448541722L,0.0904978227001818534716954789844280L,0.0957260945631925579711248883942250L,0.0935028217356440994764432632119408L,0.0927800074181317198993439212095943L,0.0827908205159650273412253211022894L,0.0769914492339663462105741037105497L,0.0594982449644751387864927776537115L,0.0155633809846619732157109592485944L,0.0626421916452303693055391350722483L,0.0517205830172140323737511661296623L,-0.00111212603321759114997396591891728L,
+0.0139145629895638718504511923414773L,0.0297200191888691588371485995674345L,0.0517801403483892024010294171014774L,-0.00663991736447016847048675532053550L,0.00400953505144565374307933446320152L,-0.00288422816336006468552572977376197L,0.00220571795868412616231539426488608L,-0.00172022146419669039973096990320212L,0.00133820251837444408737247487043966L,-0.00102127769889472877941833005373477L,0.000751328230970276417977417651733669L,-0.000519808800401357381093296892700162L,-0.000163692712837770082722149110579910L,0.0311572428138834680131190705480041L,0.000323598124258300232159740814325638L,0.0000465948022207611067739920078135380L,
+0.0136145629673421878771450105074579L,0.0309923000776661059217701644317442L,0.0478442967764949000419313416680693L,0.0754065236980190028109460042637158L,0.0837588989688822743624257167460229L,0.0923608077581436902887448595580193L,0.0933908534766570396068241599254363L,0.0963845760513329624026988762321747L,0.0892390852211234243553617458072937L,0.0871900993886357609784972464796766L,0.0713014722354650284202751896073291L,0.0678163782617691307275446380946217L,-0.00270929216870367162794369318969099L,0.0618906696115907160694482035900213L,0.0237896279206231962024812769005616L,0.000544740948874123502083208233743262L,
+0.0135957453898776305199017672551481L,0.0310584108761858896116286425392592L,0.0477135985928050059378121491784742L,0.0751031072470227206968547784804039L,0.0841711383764809187500531602692482L,0.0918212992870790951604556278871934L,0.0940823921544760565702179592935380L,0.0955037055201722651129118334229847L,0.0903728971400006286456688260550269L,0.0856776736756059440620948568488138L,0.0734976080466150131494393746858418L,0.0638674252141213945515797098428339L,0.0336765775709903670393676091694752L,0.0621006168883438439009611066340916L,0.0456701566631096688761845420488289L,0.00678811485293852371294514311400453L};
+
+initializer_list<long double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972L,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
-- 
2.43.0


From d24c1f424c4e7b77ff64995eaadf8d191888aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 31/39] fix: extrapolation coefficients of SymplecticRK

They solved the transposed system: the predicted values were meaningless, and large.
---
 SymplecticRK/sage/compco.sage             | 11 +++--
 SymplecticRK/sage/generated_coeffs_co.hpp | 60 +++++++++++------------
 2 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/SymplecticRK/sage/compco.sage b/SymplecticRK/sage/compco.sage
index 96a84bc..a019c9b 100644
--- a/SymplecticRK/sage/compco.sage
+++ b/SymplecticRK/sage/compco.sage
@@ -20,13 +20,13 @@ def ccoeffs(s,Rcoeffs,Rpivot):
     for k in range(0,s):
         for i in range(0,s):
             W[k,i]=((1+theRoots[i])^(k+1))/(k+1)
+    # sum_j coeff_ij c_j^k = W[k,i]
     Vt=V.transpose()
-    Wt=W.transpose()
     # computing in algebraic numbers is too slow.
     # first, convert the V and W ti Rpivot, which is supposed to be a
     # set of very precise floats:
     V1=Vt.change_ring(Rpivot)
-    W1=Wt.change_ring(Rpivot)
+    W1=W.change_ring(Rpivot)
     
     # the continuous extrapolation coefficients:
     result=(V1\W1).transpose()
@@ -35,7 +35,7 @@ def ccoeffs(s,Rcoeffs,Rpivot):
 # "main" program starts here.
 ######################################################################
 
-rngs=[(RDF,"double"),(RealField(112),"long double")]
+rngs=[(RealField(112),"double"),(RealField(112),"long double")]
 Rpivot=RealField(1024)      
 cc="copy(lc.begin(),lc.end(),c);\n"
 
@@ -48,9 +48,10 @@ for rng in rngs:
         print "\n",nm,i
         fout.write(a)
         ll=ccoeffs(i,Rout,Rpivot).list()
-        lc="initializer_list<double> lc={"
+        sfx="L" if nm=="long double" else ""
+        lc="initializer_list<"+nm+"> lc={"
         for l in ll:
-            lc+=str(l)+","
+            lc+=str(l)+sfx+","
         lc=lc[:-1]+"};\n"
         fout.write(lc)
         fout.write(cc+"\n}\n")
diff --git a/SymplecticRK/sage/generated_coeffs_co.hpp b/SymplecticRK/sage/generated_coeffs_co.hpp
index 2685943..e6f2b30 100644
--- a/SymplecticRK/sage/generated_coeffs_co.hpp
+++ b/SymplecticRK/sage/generated_coeffs_co.hpp
@@ -1,180 +1,180 @@
 template<> void extrapcoeffs<2,double>(double* c)
 {
-initializer_list<double> lc={-1.44337567297,2.65470053838,-1.76853598869,2.50218995347};
+initializer_list<double> lc={0.3839745962155613532362768292470638,0.8273502691896257645091487805019575,-0.3273502691896257645091487805019575,2.116025403784438646763723170752936};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,double>(double* c)
 {
-initializer_list<double> lc={1.0,-3.32379000772,3.4364916731,1.64959666924,-4.78568501159,3.75514084041,2.94601792214,-7.74471701777,5.257912926};
+initializer_list<double> lc={0.3135083268962915574103673001088002,0.3237900077244501311075592398694398,0.4754033307585166229641469200435201,0.7658770817240728893525918250272,-1.0,1.7341229182759271106474081749728,2.02459666924148337703585307995648,-4.32379000772445013110755923986944,4.1864916731037084425896326998912};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,double>(double* c)
 {
-initializer_list<double> lc={-0.135307244905,1.36140068465,-3.97544968198,3.81878808643,-0.537612925376,3.00404135671,-6.49890590866,4.60431971203,-1.63717031842,6.84757575689,-11.9249796864,7.12227177835,-4.10029878722,14.775159637,-22.3365646865,11.9887073781};
+initializer_list<double> lc={0.159892794073637228090617425888332,0.3746745146638467318680113513773535,0.2326886670549304885991617344904421,0.3021758684105592638302362437974678,-0.09813695212371872507467908472658729,1.217419912229901138591268297163688,-1.126040381134873365015838643339703,1.33676689923626281909791655135098,-1.555650264887011102112959242958644,5.71217729471743842988351609051272,-7.411476007101212054386219115342721,4.924939499063212859016995147340267,-4.388312781993124328697913690970485,14.14879571987528230537726586447862,-18.36407808288280537677171232135244,10.5341633007976736877043333922907};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,double>(double* c)
 {
-initializer_list<double> lc={-12.408089245,33.2494963344,-38.2237939377,-5.02873063466,23.45802756,-22.9802116869,61.1304952923,-69.7821321607,-11.6080506014,43.7879095114,-42.1725807055,111.473716235,-126.392162977,-22.5124628922,79.9859687145,-77.0853906901,202.751332845,-228.757413486,-42.1641229899,145.55590967,-140.652179469,368.574355006,-414.483182984,-78.0638446566,264.876374636};
+initializer_list<double> lc={0.1249848873257648797917168082283446,0.2165807744953678825140184690459313,0.328885883699785175599832291421144,0.207446198422454702972579470100839,0.1690123330872953627230395220540446,0.2736433348855120129746243496793896,-0.2873411116881622848188804993436402,1.24566054607467744444552207931108,1.027733593879064648395494765947205,-1.028931018203933366514917905944139,1.56237067825494720652750133746419,-4.513091192373875942897730426227812,8.36,5.005716638827255591811654370668801,-8.914996124708326855441425281905178,13.89058135746642802717012447009884,-43.57602600468803450612421690235004,69.57319468236049318126783759199619,31.03292314617647771395808359610471,-68.9675832583460324198730153167,6.383507357156019868249180225432295,-19.92909653768494936362778603425554,32.95892555453171086535347470393825,16.08646520286414048447420822022451,-33.73056692181408030893091990498941};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,double>(double* c)
 {
-initializer_list<double> lc={1.49639906744,-4.95180935208,8.16737188579,-7.44012682161,1.31773061431,2.44419984905,3.46885805125,-10.9780747982,16.5595161236,-13.6754887605,2.9031131121,2.25641156057,7.11511835867,-21.6456349346,30.2555924942,-22.3416240113,3.47355841317,3.51124117949,13.5351598873,-39.6617231803,51.4704918804,-33.0427203787,0.857972597258,7.12633339479,24.2342876135,-68.298636147,81.5084716482,-42.1205642015,-11.0450057011,15.9575705137,40.9593172786,-110.308373491,117.679699401,-37.7198023313,-46.7864069848,36.3789798789};
+initializer_list<double> lc={0.08224830193420374786401124583494247,0.1923099048212986045432087471883763,0.2105543804763861030258348459341318,0.2713156988580679001952180438276078,0.126633394876812956032087920660984,0.1507035619316546744334884193069604,-0.006719959467414466905535230167776493,0.4985796042139986441884929296209541,-0.3697062178590378361572193080267676,1.127864269788084094250130063591058,-0.8822465191348496592527815801857431,0.8016241292260869670462133276583222,-1.031539779445281201211949572285325,3.956213008809840791463620771771533,-6.635401026246440240841223202204632,9.588164731313807056594674609283389,-9.221577776926385818336790627806017,4.724831249452860958016417160400696,-6.877377257955776458884602390408206,23.33559030686635271239792255059976,-40.48583885691018783586894079514349,52.38515929342717224349605576513742,-47.1554645532578469382521471476813,20.41724066087188473142696287833618,-23.60072572309955603414322546477936,78.08369615987286590405278033921583,-133.74887763279709893520318574734,165.5336505611025498347047739662156,-141.7964709486535534375129439675527,57.35933227680792492493250067175064,-45.95447907707329013995922099247694,150.7149989834443208575594586058392,-255.6810933035150055979628075576007,310.1279211348915415062101222333005,-259.206997755970609654747008740979,101.965884775324619042805607229164};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,double>(double* c)
 {
-initializer_list<double> lc={-1.91120187841,6.65652759191,-12.7292168649,18.1176202649,-17.4616733791,7.96098671628,0.392403593092,-5.19865835727,17.7863259876,-32.5093393348,42.6183498714,-37.9642372565,18.1682283162,-2.37489943226,-12.6924582123,42.5222463482,-74.518286234,91.7241851084,-76.7869482599,36.4779223931,-6.36722877294,-28.8016213917,94.5845579493,-159.757941566,186.855037157,-148.584647226,69.0276582948,-13.0466093395,-61.8496467489,199.450073684,-326.127694831,365.115860088,-277.225297295,124.64287708,-23.7793975572,-127.150589514,403.254742675,-640.329586138,688.994905272,-500.006854823,214.902196978,-39.4710270061,-252.15521835,787.350624132,-1216.36742045,1259.72396109,-871.096011391,351.30665463,-58.5922594642};
+initializer_list<double> lc={0.06669415706708277134390921057212171,0.1330261042814491921191535329312363,0.2043210490475712643280740920612885,0.1875833257086326454546176300272838,0.221771429746878631879602688086839,0.09781425233499840386941914673443233,0.1142357256420078287421288575628727,0.1222555829834589710962779021117635,-0.05964402307639339622562977172428925,0.5755766874808899190349362772226504,-0.3827677980453352288523255084542564,0.9796235015597571034848036798882125,-0.7427904578767547773965412440324523,0.6369809141746801889265462783479773,0.9024427694566907779794281265946111,-2.730905353140209039923198130447249,5.585665595807601971267124935892812,-7.697358205090036887610171357284869,9.804926203659265151368431088068338,-8.862574344249337848330644143708696,4.294880757867327291795726274846572,6.911048001671363046515297826622246,-23.05150080552130850933854527274099,42.7484578291160140261474066211744,-59.60081632653061224489795918367347,67.9650125186855095452261476703623,-56.60864956748984752461074362947078,23.1364483500688816609583959677263,32.6246062177656405616505688788183,-109.1602368537026281023387428965567,197.1840159968316400483670083163129,-268.4374929444874638456004923408108,290.8308669696250060837125680427587,-228.13377703228372669399529263652,86.7949402219402305316576858420361,93.39206631622796112016667982583594,-311.2511852299504133959466929356941,554.812735056393062673464927642274,-741.8834488654793314080319835396732,781.1499219497399986050565167452021,-592.0978911792769898890900173146208,217.7485675451454095143125019633165,165.9916140882248673897636251014559,-551.6793044566967051462424426469121,976.9003470402452536307018046121442,-1293.822182702559369513978169216614,1343.28977367020233698050332810648,-1001.480818489629308782375055195325,362.7751248063843047038900040807949};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,double>(double* c)
 {
-initializer_list<double> lc={1.89420696335,-6.74595407993,13.6174313879,-22.132553149,30.1354696018,-30.0535602846,16.7813564647,-2.47654183242,5.53044980217,-19.7123802551,39.4552306842,-61.8202807478,77.9162549778,-71.9170865716,40.5605506614,-9.49268636734,15.363658868,-54.123002333,105.511418086,-157.829742275,186.583239525,-162.508358369,90.6500150975,-23.2936433612,40.031262635,-138.963091718,263.310898325,-377.485157226,423.961919654,-353.32079978,194.472041372,-51.736618989,98.3082610019,-336.410045088,621.002616501,-858.38310495,925.006181743,-744.496924144,404.381959445,-109.188285178,229.68525606,-775.805079808,1399.49183211,-1875.32610048,1953.09767699,-1527.59865051,819.073480824,-222.430881405,515.019542668,-1719.44701492,3039.71234666,-3966.04428446,4012.90466143,-3062.61683487,1621.13250704,-440.496988745,1116.20019082,-3688.02824601,6404.57927459,-8163.93419172,8055.10446748,-6014.38469251,3141.79531687,-851.185828495};
+initializer_list<double> lc={0.04942076171751574506628217940598412,0.1153672809518468659736195590954345,0.1486480617418856229339493252226433,0.1944262589010400819496977173528488,0.1625405503331183090455793185977654,0.1823947453452211716978447973466782,0.07757310892107921386056329368894061,0.08948430383952487363068337500496869,0.01330046022950022098360598571027216,0.2410999059547614989521930573578226,-0.09559807464591905676026342615920267,0.5758332459065895160178646657167874,-0.3640309393534350686645164234494467,0.840008489792393842932632195776659,-0.6245044726894454899376479016933875,0.5155581460987411666803548785025805,-0.5718248318056468761896529220776516,2.260934139747629338245052121644255,-3.952345789176248481984165186783823,6.415062499972012985783275793619795,-7.994225263991344114148612264074454,9.449882670065030802654652443189951,-8.202801128799655041666259584568451,3.832551499030056894396840074455756,-6.205572060223718334642804006191489,21.53894781605725600793806218521833,-40.12106568841725638113780524766167,59.54907539846600551498888353640377,-74.06949338419320312154798995859668,78.30136546463997188644850305513667,-61.99056728559683783913240773407135,24.40559241801995736461582009858232,-38.67251986640489857994500445397322,131.7960898633427284426765002770412,-243.9227185308591367587300542055599,351.7038298634166780769099440887367,-423.9998865523232223082323797398101,423.738784702463271645362014574523,-313.9111558558518917463152564581862,114.8592936974642961307439739884086,-151.1072851342123126582198907959443,511.3823504371246386914340178858532,-937.6650688762424088736859795918137,1328.486819170562504490268410387544,-1563.780548845562565637344869737087,1510.341569929588182741275185713697,-1075.244513873786984426548531969565,379.349443397487110165730527631911,-381.1890119636338177875169163638392,1284.94479207985694515079044545118,-2340.409827170593347241521830607991,3279.687335764755004394005893749153,-3802.157713752258064042129709779136,3598.712273708988876617853232822873,-2504.758377957576634098056236389202,867.0688625291678503763708980852008,-633.328922184053121418814107906008,2130.528728465071853355254204374178,-3866.496395887552886734901539113217,5387.147202012537990159057040511762,-6195.968052976638972598709572781242,5805.068625403522660279141607219367,-3996.000484207988394313176088699487,1371.029444303349639387990236828932};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,double>(double* c)
 {
-initializer_list<double> lc={-1122.37853338,3472.68754318,-5504.45857588,6520.15683125,-6431.97481547,-3953.50621673,2206.96334712,-660.40380391,5473.9301437,-1914.7778661,5932.53450524,-9428.91945106,11216.0748506,-11125.8798997,-6912.00810877,3871.70671922,-1162.48089934,9524.26619653,-3274.83030101,10163.8796249,-16207.6950809,19376.3029153,-19340.6549967,-12151.0136569,6829.03899734,-2055.08098275,16660.4029888,-5619.52492914,17477.6969539,-27980.8781112,33643.742089,-33812.4379163,-21491.7442429,12118.7108868,-3654.13234968,29318.8339236,-9683.02778742,30191.0984813,-48555.8620493,58758.7621201,-59488.5400632,-38262.862585,21645.719529,-6538.6887877,51933.6175771,-16768.2775095,52433.0530607,-84762.943622,103294.652424,-105386.284586,-68592.1313721,38924.8891361,-11778.2331295,92635.4588314,-29207.2223989,91624.2219839,-148960.586248,182886.590426,-188071.3573,-123838.09109,70484.0237189,-21360.8747191,166443.455185,-51210.2317156,161218.510225,-263703.274243,326284.408454,-338210.338807,-225193.491246,128522.371261,-39004.8633662,301297.051273,-90447.2628019,285824.206502,-470505.856564,586777.442858,-612990.305675,-412443.878277,235971.359585,-71703.7225379,549518.144994};
+initializer_list<double> lc={0.04140687259619404189770223347259925,0.08762980343276076914456600904723992,0.135599045836636980821369854908785,0.1477376964694734410676005786496224,0.1772082098543740280901959685493069,0.1516296120693847516713034079934612,0.06290479210093389599719172707702117,0.07194570342882915879837786579121492,0.1398581444575998875939042530589128,0.06574692253666811227492312489786466,0.002721772077284838804354525465871955,0.3012507762737732053200577622997459,-0.1129516981258814291787874568257047,0.542623289766644089940218703526602,0.7194741517742726015430122071575473,-0.5278105148340097354349052130073309,0.4243865928814001262995130425657455,-0.3334568460134697067181015901152091,0.5041760066436726697608980259581153,-1.518030249125990457326588609677007,3.234444921379499276819057663090942,-4.63861105992505250595001420340566,6.678200714278875038092524639480412,8.822502674959654615448981927628454,-7.447115261059798373401255610281855,3.392544851844714541780144697877273,-7.834798315345870003878099550341411,5.511191210152210852338159194992337,-18.77619267937954939945213798379537,36.10857887589187568790718474870417,-54.31007130056964722027702592882075,71.79935763587723650047969791465641,83.81321919204793350361238782740754,-64.06796587548457164795222621180073,24.5826162476641106130964029305774,-83.32286001790150335427171149924268,41.83661357561175301740937025561506,-143.2527552154219745779515009704798,270.5405851019052783533358105829408,-402.052503401779899007849799923814,515.0593197278911564625850340136054,546.0116157940260218449422818362669,-388.8938386984728241322344117996134,138.5709749288660822840382465041649,-576.320011812625594244275030498686,703.5504325226271670117905403120345,-2393.527851544290932681332399069255,4447.53327999300490461149021846277,-6458.471043493387279555212375410719,7985.07865895095429574812156276198,7584.584849254545075989490575700198,-5041.236882969673365527851651405404,1694.458021334084654254302339595117,-8520.162778331514224652144459927051,1606.242414067206010638333830421455,-5452.360259902677729415571978706074,10087.46534709037093095825788497226,-14552.37841989225918898637636064425,17825.46209695592436589978829656758,16483.99727995816724540044360154983,-10792.16331881948020581542686077236,3586.008632265740803694643629707457,-18790.35575616932891447694232820187,2529.885201198525616170474791831557,-8577.13955457426203898457268236726,15831.72251059437243397807638714622,-22758.69418430957856403432848086521,27740.82462647274191111664893873915,25302.13416525674150388195547710381,-16441.31731251372321623728592969556,5432.690636648979979769418954591091,-29058.12200865404381261546966838235,209.7313251014558529411953967583952,-715.7942505986454912410861748016437,1338.874753595638854288775348096059,-1963.661318862396918513518808683027,2463.304436771849855425506643701375,2443.886597723746111598911666805997,-1667.136358189712359091372696519727,572.0969302471853363994196856756402,-2679.639989077419337343311792025746};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,double>(double* c)
 {
-initializer_list<double> lc={0.308663498962,-1.29519460574,3.36383134545,-7.46704170044,15.1437435757,-28.1149391888,44.7273120244,-51.5468873805,34.8175242682,-8.92396510146,-1.52106932316,4.14309699845,-3.67385821193,-5.25448732422,28.95742032,-69.7158024027,113.808925825,-125.650392502,84.3362434534,-24.9169449878,-5.26633494681,14.0368589575,-11.5048220161,-19.1837058143,92.6464892649,-203.805901382,304.096737469,-313.084697416,204.840965826,-62.4290389159,-8.46011269871,16.4702023862,13.9265076842,-123.39719457,335.075694205,-610.239318307,814.289832541,-782.039663126,497.22285009,-152.585493915,2.85784472551,-43.875369634,200.987582636,-554.782865358,1120.85134677,-1755.45047972,2129.77846411,-1928.32159817,1194.24411089,-366.07564461,77.7416181475,-350.00229101,940.823596306,-1977.78018208,3401.01353213,-4787.03644976,5394.40129008,-4658.8833649,2821.43834788,-861.535950371,360.492913314,-1423.928114,3299.03903313,-6112.1016414,9519.30549545,-12416.5342876,13224.3365873,-11003.2836784,6540.9944556,-1988.16433762,1235.84509505,-4630.7691585,9979.27495265,-17168.6773711,25013.4235245,-30849.4547948,31456.6605105,-25411.2563894,14876.2787364,-4501.18644685,3665.76412838,-13337.6168579,27506.1866443,-45044.5026383,62547.2188502,-73924.928646,72845.6222724,-57467.2199843,33218.1637381,-10008.5626471,9947.44870156,-35502.9301051,71045.7171228,-112274.005155,150333.185554,-171852.487297,164767.956597,-127498.319899,72920.0349228,-21886.4866025};
+initializer_list<double> lc={0.03281756744702552085971625824127846,0.07653959647969365521749903594200792,0.105978956565177222031980666194713,0.1403106018531142802617251722983246,0.1396410192150721762129394854864082,0.158674233643366085812596211153296,0.1204982263866932985372123889184415,0.1275324453656174374789958398431559,0.05197493529708208955598754156090837,0.05907915348857237399236539431924006,0.01589065772912493286110593099066723,0.135663066892107847096463939700461,-0.009652252509687036333358333083822816,0.3230278309110693986131443143742117,-0.1182822666408822259742119223697009,0.4974456106307665889018034549742902,-0.3003354560211386611954720371386164,0.6186272386195072067825932074817322,-0.4495502997673865136569980150053224,0.3546341868120262075388811158643537,-0.3146245710690113368056987289370656,1.285521280345619286033440658540645,-2.240875777004244061577423565669917,3.802479496296399902513280368015402,-4.926015224431522874716393674653676,6.594961574623816545378689922232187,-7.435933800290923991853510009796685,8.096912921308355967100409140113591,-6.698332198855816110117543389610581,2.996201514927814470927585597208662,-4.626930839886205844653566304586733,16.21858432678242522178339952766025,-30.95657856059271335628281483297961,47.92234317770852681653964263792033,-64.49031890556478717943209065203796,79.47205115471096420027115804601279,-88.0755448648414106796892128672786,85.57953856381943339012533069703374,-63.78572088014683450237404718770696,24.02587913094597833831256796437986,-42.18439481079841284497948709860062,145.6901659811771825862572916305392,-277.7702080891448418906401776317311,421.8788641478663928716267807910225,-558.8441464449634515601492787703933,665.9401520406571353866605841547082,-708.9010232488384785243493514364032,646.9446471164528621601766627017866,-447.953526739671229758824695307534,156.6250328777720259687792579660407,-260.4344515750914919445049658039481,895.092262164934613259174466470024,-1695.660026349705977651701837640696,2544.909484978679841861782175876076,-3317.34048060254215604757527153645,3860.235226464970602908960260251928,-3982.167425544783444167061353896,3488.488216029597520486443352045731,-2308.370969871170535051758306447762,776.8226014746018419516838936816625,-1107.932299755600809004652849330579,3795.777289882606281948891092333185,-7150.666054882950855919349298137894,10636.59774764143322555962324610342,-13691.7993368583180571918401954902,15659.35434357570465151045327365506,-15797.62316404077722747722382282525,13471.00242561003561121223212870313,-8667.387834852403005507753641317753,2854.39358137733480846501969927846,-3296.127543126720048326762778821428,11266.77789317939512964183506408408,-21136.12704634627984762324619734407,31237.00214837408649998152100502671,-39846.81934600955840466866220759787,45026.21444489933860919111789169737,-44741.90622757768854723552344855897,37490.89034657908479926377654120662,-23706.19267460843494711660524993774,7708.127709420926269095666543927861,-6947.976083309557249359665292759545,23713.30438551300119579301906255543,-44360.31745830301628305994139349677,65279.15775928403241128415501260915,-82778.50148849625005277870396200593,92814.0685326955412794956243199687,-91352.58801197238697467314412605939,75730.78967406800444049917322824679,-47392.45404736961243318707164632433,15296.44926957358815824192084561011,-10481.50565515645768421622798758518,35743.58467504340110547436325190138,-66763.11648992001494874487836357925,98019.24509345027724745382400804883,-123900.2300418700552223197697378445,138350.3925213396956765687904047522,-135494.4608919256368499585812747172,111705.6549480413473114353140036951,-69540.02304251455234376158486985651,22362.44583677625429392878954719123};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,double>(double* c)
 {
-initializer_list<double> lc={1.28345332953,-4.27998592189,7.59540310133,-9.98511988159,9.64315306443,-3.73259896712,-11.3877379351,35.3405245192,-51.382487296,38.8781588539,-10.9618771957,9.46855400714,-32.0195893685,58.5099602936,-81.5126344765,90.8904633697,-73.4833239415,20.1397550094,55.0922277423,-102.260776728,81.865351046,-26.1790420342,34.3884653395,-115.61589478,208.794768527,-285.272151779,309.624966821,-245.293015237,82.7160656156,117.368627412,-229.778103817,184.536351626,-61.1257417957,98.1642087045,-326.845019292,578.987007651,-765.920285624,789.287057295,-570.306499383,127.375115413,350.218080115,-578.398965785,446.040533667,-148.340168051,242.387267698,-797.053187627,1377.14428637,-1744.67226072,1664.14867572,-999.371664152,-109.975135997,1158.48291481,-1544.72402365,1123.75508259,-369.910829783,534.715125331,-1730.14242785,2891.43487108,-3443.3957796,2883.59356477,-1043.71434623,-1559.52460031,3697.85201817,-4167.0925246,2865.78391916,-929.331967018,1059.99977058,-3352.02194888,5329.35525135,-5715.85605147,3548.72722732,1197.39105197,-6993.6782225,11043.3416496,-11054.3183018,7255.0991605,-2317.88548182,1852.21199941,-5637.0019716,8173.34866549,-6841.49639921,12.1626382977,11586.7893354,-23934.1825885,30966.1760813,-28538.9966541,18053.7852301,-5692.66002711,2648.83579595,-7388.8148794,8206.57220819,-135.922725682,-19094.4939848,46264.469826,-71561.7634814,82345.1278496,-71555.6590942,43991.0849983,-13719.3140296,2170.0357791,-3628.4258944,-5845.91594461,34807.8356075,-85141.0796169,146658.654494,-196651.578541,209626.444936,-174478.586821,104902.908768,-32420.1813326,-3791.10948405,21198.8863786,-66862.4933941,153553.395661,-278611.852098,414080.236041,-509452.248331,514808.611701,-414803.483335,245049.163905,-75169.0046371};
+initializer_list<double> lc={0.02819558060132141773794224780186331,0.06152513640355788253257744586397903,0.09563091819743734030415684215840192,0.1126385764933163286498834914864007,0.1370580741936248872232999047582915,0.1288843733466663906704244915736841,0.1411606417115483299984334382274074,0.1043132342820965186786909047129294,0.1084805353377171910934519229598302,0.04363131115939568990400512268159155,0.04936728920028952680516518721419214,0.04029567295143563180647548475027691,0.01922730753341849387015341696763359,0.178478703392832619159097121391878,-0.01858162566799330636923716460789416,0.3229606920022327639055679746181875,-0.1168066845898769165764310586998401,0.4502817536430637767509904566179819,-0.2686476454881386177142426730737575,0.5350944868322459744185011894845069,-0.3861405766854913763884836872456592,0.3003066161922233076000300551447225,0.2918288104969112701849560605901175,-0.857532624853558471759866829993717,1.886214980388444623149416549268244,-2.698770125524573662644707174197149,4.066035943770820282349913504418282,-4.953915988749429876142480398256683,6.319990984918757204278843079820025,-6.930593124378427721401442399502334,7.365561365836170908372702114905009,-6.002509179240908137547311117133903,2.648612954548768919113268484066533,3.939405311805261193889243232189442,-13.52784293065756418734375646801491,26.40095320680486165851427717567642,-40.76042885266370119995782100686626,56.35375073652628205470410175315461,-70.86716305320031130363523846607985,83.34225195606742072602100809635827,-89.41552227508823531332420652094659,84.72019388101278434254065683935152,-61.96732759757597894291062472879059,23.02218155236577506353949725923863,40.75901492266187385710811975914812,-140.9768292462465187690638513506418,271.3418151169506432309674050278575,-417.024874050973276991085389635687,565.1252468081070253372006939867059,-697.6500948310397499452985333614458,792.0287460283013628562539947208299,-813.8636751192962030249006516535207,722.6840600608015010016346026300508,-490.0075051287717737773578550329605,168.9493238615289437383756989169632,298.5519714999852655626922363928437,-1030.449031782053135639427888527994,1970.428763163901250295827018493652,-3002.384639786696974653123886036147,4013.096508639307868148047299439755,-4864.240231629842019452409062798673,5380.800545486349795978810793378655,-5345.017780086327481807299042262385,4546.374063474775067084190795784545,-2941.43804348648683237846107270491,975.7778745070871968611528088406598,1551.00516647787397845759317233748,-5339.999917577633172080727100178067,10160.36962410204858619773966328941,-15365.98306775344229788142010297241,20317.28036856735878350033159768971,-24267.55705052123306536049160333147,26326.60311396379215890483825365432,-25517.19550804674563437596581257465,21085.84341987297296400933264520145,-13247.18180687316662946047752434702,4298.45042936615050057541257722395,5773.451723001198375548555442967742,-19836.82110922382281606609790461902,37596.91210428184773820503349101786,-56525.05244760680891458881887561482,74120.73353801770985818695771678219,-87557.17456764160892178287033501929,93645.49915406322074213695670171165,-89209.67821460394784953013040205521,72299.2794306917091905256762491762,-44576.7217794346828224150788782247,14271.33171651978882568777965671211,15573.17552584413026251269405790293,-53425.0059009481905680464350009259,100966.3156499016365515151358140121,-151139.8730721933876742216327061109,196997.3724044266612234122709221234,-230873.9936329156078926859461542695,244485.9774194809691462243832594924,-230176.6003108795764096881751502894,184168.8698180701972472675635484028,-112197.2417620913276741894654490982,35622.86893730728281256165356688618,30743.98660471393873791319925831652,-105359.7761082694466713173522834061,198731.8466881435878193833115485831,-296625.0490463957797956256273649695,385082.4209386570131961131100031361,-448966.6558880320309050390322848092,472394.0208984570659467067908574262,-441431.3023462872867881467943044872,350394.207444426349890847937086918,-211910.5968972602576452384334734905,66948.84124314673026205242853566714,44757.330757205538173741393638303,-153296.2602986689466517662419251953,288846.5543778407785039788143944354,-430449.8756971372075130640732178851,557611.5404750081772348772309504319,-648311.6795855895363013645246281934,679818.0472247963727028421676639258,-632767.1617865921613150513928170802,500196.1321431517811170212877290781,-301376.882451321814522094830569913,94974.24395563609159937657075109336};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,double>(double* c)
 {
-initializer_list<double> lc={15089.6077412,-53536.9962449,104840.018463,-159648.115779,206416.266093,240636.81228,-221694.604513,181871.372682,-128190.789961,70468.6334161,-20985.8179728,-235265.376985,28230.9710189,-98874.2923647,190492.731233,-285935.71315,365799.749635,421386.052189,-386996.777548,316827.27553,-223020.143639,122501.067276,-36468.3105543,-413942.100365,52292.9454372,-181404.117583,345209.211856,-512414.881608,650048.796101,741649.553947,-679389.050542,555284.598528,-390466.901886,214343.197882,-63790.395958,-731362.613537,96279.0595494,-331595.471002,625079.376283,-919779.734335,1159066.80911,1312188.60073,-1199583.55742,979182.34372,-687993.472264,377490.508124,-112318.934465,-1298015.26868,176667.47621,-605131.078376,1132403.17652,-1654919.02823,2074432.1324,2333997.90247,-2130302.02563,1737185.63371,-1219868.36032,669099.863655,-199053.374229,-2314512.10878,323688.526141,-1104048.61075,2054350.61393,-2986179.58277,3727484.02299,4173476.01998,-3804634.83665,3100351.73784,-2176245.98501,1193428.56128,-355005.196822,-4146665.09404,592937.913578,-2015837.79872,3734425.79298,-5405488.49317,6725129.6863,7501421.54126,-6832524.60415,5565197.04923,-3905565.35904,2141568.21151,-637023.57063,-7464240.21682,1086911.58953,-3685923.82924,6804923.17256,-9817611.77562,12183030.3656,13550953.2815,-12335656.7159,10045251.031,-7049193.24159,3865373.54895,-1149803.68732,-13498253.6049,1995031.30797,-6752372.60049,12433068.3466,-17891881.8747,22159120.9757,24597734.0808,-22385217.2645,18228364.7034,-12792755.6566,7015530.26226,-2087000.277,-24519621.8827,3668208.07126,-12396829.5393,22779583.7138,-32717660.7046,40461952.3742,44857067.5948,-40820536.7204,33245555.9164,-23336967.003,12800339.6087,-3808310.10819,-44732403.0942,6758064.27148,-22813101.8672,41855173.5986,-60029154.8365,74162325.3858,82165194.2035,-74785167.0328,60927318.2191,-42782718.0432,23472462.9113,-6984498.74558,-81945897.9639,12477486.577,-42084255.4702,77124300.3397,-110500370.395,136428323.356,151140394.156,-137618632.141,112171290.232,-78800536.8712,43247542.5636,-12871189.3215,-150714352.933};
+initializer_list<double> lc={0.02332815669561887755223991028305557,0.05437837438630378031749457987945162,0.07825351899338387099801279798799739,0.1044265200897934161832414514394115,0.1126873542696533936273514497979331,0.1176094557209775203099905214241196,0.1254493405129252219683314647560122,0.0908550857590878789696237550135725,0.09324220667214400644714144066010947,0.03712721536394142982427048196380207,0.04186027230449256767339436944860216,0.1300021821083184107836332322712924,0.01446776920624395510872621903131491,0.0853674131059743827127190050846357,0.01749842057695189050716373279929337,0.2007915258452814280133286563822154,-0.02411305629227935337593461758438015,-0.1117924563189080307518659662421316,0.4054750066539532071861469034523987,-0.2398853830313023060804728438254843,0.4659467745099213760583591290497824,-0.3344612879369412431665570706913326,0.2572914765953476029312689576788564,0.3113551689005196625178849618052838,-0.1790614907316118778507227896486108,0.7608070339099480365809134302324022,-1.301359547927245235648109714276446,2.279024464756372217776792732430119,-2.945118406083428319486691680768251,-4.826146948795554193195240862679514,5.951000904440132439094319368542942,-6.394604337455275256948782340955142,6.673413896213997697284222536140393,-5.376289880188806551101055254325843,2.347649644167647978828763796566138,4.125733330596670721147143862135404,-3.234677760081168989041100626568059,11.39732392991338856884522108676389,-21.96618202005344898392856467274853,34.58311955793665061086941570872545,-47.80927203227513089116158094030565,-74.14202224262717531201647717792108,84.36080812766514869564551968088382,-88.3741489189486123006572362734107,82.16110400045867785978465411217679,-59.23547944978514773882352543711434,21.77713127346409906008987776618655,61.6886365571894106967454455638616,-38.03906453345628320303151283085988,132.2169951913786959703103158824205,-255.4720846072124629945438564612875,396.6197782281886127043742725568395,-544.575355804012361692025395499425,-810.2824581218304982572084979373191,888.7774139667566764138622443201801,-889.7687229134692346414548481639403,773.9256995367881148125139900152368,-516.4091280081139025613004060751269,176.1661317434856118984182642652159,688.156879571997941453209084159744,-1985.430119092235978292795825846386,6861.398666391749203068271367304135,-13149.16891430675963252841251307295,20123.19753575986027565986623897871,-27102.36171275851018257801044100098,-37822.83399370895487827783263454018,39505.52193057797933359418122614643,-37169.80642702355963356453336813497,29994.77162470568728534845171954865,-18507.26978956449963886827282769431,5938.724175242322948617666895060389,33314.8196404811766322791563839362,-8955.637810220677035100793356213745,30891.77210063864190016098487238488,-58997.6309018638181932079050419126,89815.09246454563800718440983025688,-120080.3633198584906293345700156082,-163844.5686133115036444560128285363,168434.0162626915281385675713041052,-155503.7419253805187754849290275413,122904.1102468997787366239583347348,-74355.17118694940452363566750005427,23532.12667524017903675918385692474,146161.6799233181460720206459172282,-29855.93464472950040482572190666745,102834.1602341984401693081619098398,-195860.8554638306538756960387419774,296945.1405235221661087971143409275,-394755.9422693142241472184702802461,-529546.5096617205618373098945137884,538099.2821860706465983456403853756,-490172.8482306078666529273598302413,381941.2928708751995388374964170826,-228084.4274428662477645495776952587,71549.91969810311657974056257352944,476908.5158592766289962217356926338,-74232.87302330908736773097855142451,255403.2768665118236721380526355815,-485464.9618993956579301591826387523,733781.4544593258486076423276518731,-971423.297010108076032748651120518,-1287287.885062913873068220914283209,1297474.762080554143121763847180111,-1171078.72650752114524044419771868,903838.705122243398431530833614311,-535173.0778374137428816873489354808,166934.8950448893632096571918018656,1167229.612718474102630602538811239,-138729.6498462455889939229009824966,476954.4324017848331828178753366385,-905346.0579490974462800733847522875,1365638.696820855950157551956125761,-1802880.078763367778805901077877737,-2369912.453141226015954540538095635,2376087.905305829803193386392050942,-2132025.087727067887314373497054418,1635648.471441947648332078326482355,-963392.4228561556251884946879850577,299468.2158129353783495389250295336,2158489.980558434914559360950955334,-196015.2270937149129246672608909406,673629.2053457768367663304523322638,-1277715.819897343022322778178698495,1925182.113057546416334392199193534,-2537730.71976783532958444800910866,-3321434.609849504432662916995867761,3320732.910126768834073286939210454,-2970384.395052061659638230584435877,2271672.562832428090631082901274774,-1334354.505866478829587058189425702,414041.3201839214495001640659545025,3032379.156760813682774468005736452,-322.3557199112483249117938056085393,1116.614354787095348592064973527801,-2148.651170490450042482613430843868,3309.531147301084321550019154115545,-4497.759677238787097831549673333051,-6460.124330747504052868128584082937,6892.32296221338715194385568670027,-6657.535150659601664883419782428326,5538.007161042436432910699761738998,-3522.176437980578336857868651550158,1155.815833139638517887049423569532,5597.748411840272012493948707510001};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,double>(double* c)
 {
-initializer_list<double> lc={6.18176128297,-21.4088030062,41.2032239688,-63.4925321578,86.3571897811,-107.37632351,122.748985605,-125.821025934,106.229079053,-57.7526517733,2.80796017296,18.1708135972,-6.83976860739,29.3715050623,-102.45868763,199.730079683,-313.287981524,435.283609025,-553.316659533,644.617014805,-671.512946001,592.414474957,-405.397306015,192.298188004,-57.7355397268,10.5021886374,109.796819223,-383.654439846,749.646798473,-1177.90902594,1634.98888026,-2065.08918374,2373.27152366,-2428.28240822,2125.01151597,-1509.14992576,827.974187706,-338.771145183,82.5077078987,364.401954969,-1271.80909826,2478.21640893,-3872.7161127,5323.59355928,-6621.91504359,7452.81646658,-7451.89638293,6417.05041467,-4587.76010388,2635.93729272,-1166.60756702,300.946214002,1110.79189233,-3866.30184334,7493.29352089,-11606.4586261,15745.0210292,-19234.1396905,21174.1547851,-20690.3178434,17506.3965183,-12473.8653003,7292.45935786,-3328.68586832,877.860102844,3161.02032178,-10964.3493825,21110.1464575,-32364.1647395,43278.2882637,-51901.9534222,55922.2707454,-53464.3405854,44445.0167831,-31415.5750375,18452.4160238,-8528.39532119,2269.79462605,8490.0076635,-29336.8868751,56085.2395004,-85072.1387735,112128.402232,-132074.219978,139424.996684,-130566.051911,106640.585243,-74553.3496964,43673.3110434,-20238.3420851,5398.59790906,21701.0715115,-74694.6450483,141774.993514,-212768.931787,276492.598491,-320079.347135,331357.217692,-304161.301075,243983.247241,-168255.31019,97756.3411377,-45106.1141708,12000.312948,53134.4532336,-182171.241919,343302.081579,-509820.80728,653408.89606,-743800.778543,755513.715009,-679849.17708,535020.381473,-362827.156967,207941.321012,-94917.9017131,25066.3344108,125260.221645,-427775.383558,800421.970058,-1176374.00052,1487289.40127,-1665182.927,1659589.03838,-1463019.3603,1127277.9417,-748623.139641,420421.710975,-188363.541185,49078.1763737,285435.621257,-970970.137533,1803904.90932,-2623774.17869,3272253.9117,-3602686.1396,3520781.83805,-3035720.68995,2282330.82018,-1475068.60792,803962.169861,-349385.312719,88935.8951921,630588.341479,-2136555.49975,3940754.33118,-5671472.01365,6974776.15211,-7545791.03787,7220033.32146,-6070708.01759,4428377.46844,-2757640.92178,1435328.02815,-591985.665722,144295.605122,1353394.5182,-4566738.44274,8360156.71941,-11899632.0457,14418794.5516,-15305946.4351,14300015.9164,-11665769.7633,8178866.87936,-4821525.68873,2321358.07934,-863429.147653,190454.944197};
+initializer_list<double> lc={0.02043314564395230890619980615339753,0.04539141101960506451329405405215942,0.07075203982951664778204600767442234,0.08697930832413946467759680823218271,0.1068958575655378236151850883810066,0.1091502505013242409744354173621816,0.1213834323729428069120432422489123,0.1067880838340447455899594021218111,0.1116751088925607817586561830794796,0.07964815012284395825182240489777904,0.08090791801148170890301417362909721,0.03196414276022623140484797212552828,0.03593962376253014197448471563848742,0.02705973546125218336937329970338904,0.02220691606742952972311628040920028,0.1162345535837019870553817835796394,0.01477309942069831764332856477664779,0.2095251928491170418796775964030643,-0.02712873531369438905036844429929981,0.2942019004032911389861435382189083,-0.1051421587797457855772607341845453,0.3646812060065380248400894996294975,-0.2144141733194794745026440836527829,0.4084915353233824235282219819075045,-0.2920103332391643241153785963267802,0.2227220619251843436170453955851974,0.1776624251851340234155839705434556,-0.5038741929042536160518480313230212,1.145168043816696891616667820129308,-1.610904100370667762097640803744583,2.503677319211917291660519594535841,-3.041601465306033043706804319714136,4.05776251262320347573885453466574,-4.612147463479227897442267530310713,5.546278520739122855715634223346893,-5.868718810506455333986850047323635,6.039408101848535083552766429310054,-4.82192100379454007809141604906681,2.088421067569913153279696964160178,2.726299079076174331040094354709678,-9.388748000013838314476716205051389,18.45613824257572776410873606686946,-28.79714336843498905189005016968932,40.52953449693404178110537162922007,-52.3712608846989261692550153065657,64.51942628173769441330490669871955,-75.09123252065055835785028166848413,83.38346126608124997464169260404573,-85.78113890398301632944210357959231,78.59051186455946835085703477973928,-56.02542326943083386975674633005961,20.42840104652763536729108482264094,34.80896763923579496893996790583281,-120.9892682522310012876008354346851,235.0010215808310251314499121147845,-366.6980993032411533445732479776873,508.7785557408868924028399435713895,-651.8936347971982054138466277295182,785.9739037659963190786333941145862,-894.7808284658720487551733728127788,956.7422774345020952179160359426171,-938.9581125609485376140258120399241,803.7363408793728932227458713020743,-529.6263424505425649129549845742733,179.1809724136902678792107991915185,333.0279230843738938450851174699076,-1156.141447568140473438925056878031,2235.542209604541385917366098167892,-3469.173016842149293655186330912471,4770.303284755696084639128276069226,-6042.109944304809531629732722021085,7166.192246625804848375374231294414,-7984.820846300851648154685979996683,8292.717599605544178983998143633212,-7840.7132005912181719480466456429,6410.511908540859343017485090922927,-4023.052107243231674594954534961917,1309.100161475603491246061548794959,2372.65957622509321195528330422742,-8222.133783789853400862321224552828,15841.712429931736260956122206046,-24452.90267775241366514385296862032,33368.45996056132508757547551543916,-41833.24321095967070911179613200055,48941.66059415110364161313212262263,-53573.13942599273633620939128928553,54393.60750963592673893531451135325,-50026.64326343507798544977634869984,39634.8427866821358663933807346071,-24115.38813825259804143834425672461,7672.007642995029330786773825588115,12634.34114797719709991823702687758,-43711.79481198640290003100349038867,83964.94405875456568097369738735049,-129013.5692329273669321908287938762,174927.5252176863617355274396342846,-217437.198733050277930807656821735,251577.951816240041130517450202238,-271546.6679124279935716204100863503,270991.7017645955299873587080673037,-244254.8869639250404662505073745463,189344.9528878890003751929761517123,-112888.6066115238196346139823560897,35412.92260185618299342291321728014,50624.16277089203739115096376053025,-174911.510046350626838238173613154,335145.1534723220534226566575558608,-513024.2369000111471112887406304202,691998.4743397366125862138958259887,-854300.7998448976961612812806028834,979853.3770788889006751106918441757,-1046266.354370207341267391862641301,1030739.33069097194037689808319671,-915555.4338920349714623358284797418,699014.8384342820374947033614090891,-411103.5247352774814017052444292091,127788.2472480612005189339157607802,153812.7339178201027086889327280033,-530870.4836059804593973959639799186,1015189.615422070239622132145932085,-1549424.19806930973926550686141655,2081522.586582860658567605371382068,-2556217.097356600647099983462762535,2912514.138717596066714572148235854,-3084914.272645913426186869775617651,3010550.901290086791041379494777708,-2646313.239392303964275864660982056,1999129.378576720288360468316106528,-1164878.17122349093960509030328973,359899.9289611147489859749408784965,356980.4760012642483282451846567687,-1231100.976913961176904780516020834,2350792.214626260968208359637325114,-3580023.77729891059449973603753757,4795134.322495876489650581455148686,-5865997.533081947428029735595952875,6651592.671231656829954285364906859,-7004743.806346515096149849085067363,6790518.256525431514172801574387913,-5925873.73590200561678565931478011,4444484.888824084150215105623220193,-2573775.528308876223884809557875174,792014.4289366873023801476646916365,636790.31686066233703639058090665,-2194876.170138699386297698453068059,4186954.935087495589933057333791642,-6366887.414542312035281014781059827,8510799.339042367770938352581358673,-10384624.57206693586533580937652007,11737862.11893998881972050397432789,-12314148.9506376535707129066268403,11885865.64393850477852537425869184,-10324154.30177573078985971432577556,7707827.92757400373910170254354468,-4446204.770800683646695394861707549,1364797.857318191870416139755623919,877114.7937512886797261911062077047,-3022322.507240499675180613546945638,5762252.967261389662744982238066629,-8755276.18843926275494863793773519,11690627.81923022679166591027031048,-14244575.34193339465072941810987134,16073051.96876282205488435625087567,-16827728.74041011234900689326945352,16204836.89222570450409984729982342,-14040836.13976114160649377433501547,10457334.95882650842487450399397775,-6019951.728902036962201190854906917,1845473.238720035239858811631081142};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,double>(double* c)
 {
-initializer_list<double> lc={-10.2910491202,35.664993216,-68.7690593391,106.433249186,-146.143486192,185.39642504,-221.090120197,248.301799929,-257.919153498,234.545421863,-165.851313177,75.7307225154,-17.8050930492,2.80352091872,-37.8146707035,132.338523122,-259.733684784,412.461025995,-585.586404894,772.931726436,-961.633253189,1122.4622396,-1199.57644092,1121.31552041,-861.4533029,512.670772996,-226.530722086,58.6555525289,-127.533527568,449.176493725,-891.308807027,1436.18387126,-2072.3812891,2776.08252332,-3485.35745561,4067.17411304,-4307.61478053,3993.98336655,-3110.01615948,1957.86729941,-943.914202008,257.998792589,-419.31281058,1480.64665275,-2949.65192304,4771.86604845,-6900.28250086,9223.2510543,-11480.005349,13188.4334419,-13696.0362204,12495.2164278,-9710.66891203,6230.48028131,-3097.47691771,863.797656097,-1339.00310264,4725.6243428,-9399.29190847,15151.2885643,-21758.1474422,28749.9844067,-35191.143242,39587.7822849,-40213.997217,36047.9663581,-27821.6303942,17963.3276836,-9049.83293363,2547.27955264,-4106.28213009,14457.1806258,-28619.9664553,45782.1593799,-65007.3010966,84584.1318258,-101556.379216,111783.50441,-111149.978578,97965.4592768,-74967.7840375,48442.8287715,-24548.5740093,6941.17487665,-12028.9475136,42212.8729025,-83056.6348642,131630.981158,-184528.26899,236213.661496,-278208.662784,299959.283374,-292452.132585,253777.860221,-192484.901619,124147.105817,-63045.1576478,17863.0908914,-33665.5384543,117722.830993,-230120.73267,361194.394176,-499866.140966,629804.977509,-728450.831141,770630.830483,-738097.963772,631449.719276,-474738.47382,305173.151355,-154973.169074,43937.0781309,-90284.1418115,314589.040108,-610987.121513,949996.932245,-1298610.47557,1611975.99679,-1833540.94495,1906496.54386,-1796860.40748,1517307.74721,-1130930.26467,723914.839573,-367116.504438,104048.878818,-232926.029018,808835.157758,-1561190.24342,2405771.30399,-3250717.00326,3979700.03138,-4457719.66993,4562642.28605,-4237515.17983,3535076.87501,-2612497.24602,1664083.26423,-841917.241591,238373.801712,-580415.196637,2008916.80998,-3854831.32903,5890316.55587,-7873356.14628,9516041.49745,-10509107.7567,10601507.5773,-9712769.2198,8009922.57767,-5869055.98806,3717797.52462,-1874977.57673,530010.768419,-1402031.63101,4837652.74515,-9231319.35935,13994104.4745,-18516456.6363,22113159.7378,-24100582.7092,23985043.7755,-21693008.0735,17690698.9955,-12849109.2346,8088955.74959,-4063156.88353,1146049.14001,-3293466.23197,11330507.7553,-21507332.866,32359369.2865,-42408243.6774,50076780.3535,-53901167.3016,52955252.6505,-47301693.3035,38146289.414,-27451671.9793,17160329.5062,-8577522.61382,2412569.09162,-7543805.68648,25879784.9901,-48877225.8174,73012921.2398,-94815134.5262,110757923.302,-117797404.982,114289160.557,-100833420.854,80389078.3602,-57275559.9376,35512893.781,-17644227.8997,4945017.55156};
+initializer_list<double> lc={0.0174158699793956314306931722758618,0.04058282231352952271106871407718727,0.0597693286281956389756963248928893,0.08017724935134057878934862230111731,0.09052138611022831907050162814214781,0.1055995571265051942974357890375806,0.1037987656258852658472500506626802,0.1123855270424571734056382272860324,0.09681939516919770221340892397290615,0.09971757788520830365995758805677039,0.07027281636152926594267376651765239,0.07080872220295019100678922359337689,0.02780013938923800169387173191055404,0.03118893846593304153486760392121702,0.01236674076587615159866083972993065,0.05825253447138952424760214810784169,0.02509067966707799136923159587775317,0.1352647962135012011272210346784371,0.01216327189762905536766417358976763,0.2097490238067532579237202973288972,-0.02844250018179548598396490663043345,0.274874637121962144102321330815785,-0.09792398672146627696725040366643096,0.3283043543729044761266913709881646,-0.1921150691647685828442361526423322,0.3604745358568470768079396295684763,-0.2568412572164246957126260612403065,0.1945647972787274041688295338055126,-0.1061553799540164265565487818347913,0.4725255706655787944615746952068601,-0.7861008453646651843806426128596402,1.419227813810245624902229613309125,-1.804569573881671136568168988409057,2.60622518023725586553165951998857,-3.038309243278962179318645493889903,3.914565753478899989908840241505443,-4.355946929617144297085494154422146,5.139070657576398249943033621366711,-5.373205250267966975325140401493666,5.468828674392323497922560046749361,-4.335122116500958711209391108044742,1.865365031169800391179236431502679,-2.229986944421428768590200841276537,7.884321938294315290705396466526695,-15.25614575282471437356298406117503,24.21679697528617117255318048243624,-33.84561424269926418891943367476694,44.47160414951949628662025427264082,-54.91841083617566134989541460501847,65.46377331677822628820822521076062,-74.39551057831134889160172115641634,81.08936316431834055065908334830882,-82.25056693289277363842287743228902,74.48891694835264455636324360066778,-52.62564740572753693121451665006997,19.06345974809769126202375513816167,-31.29604467677775919715724193016715,109.1430503495459418295671859780541,-212.2973705265970250349305177475206,333.0883391428208067603290856548284,-464.8090750474936752140366785978226,601.9085680776695670027779800830435,-736.1413917686795550109475702751154,858.2765620070478436983345380142718,-952.896613978757508067888350283951,999.1822590347727152154401675094751,-965.4917336158998733774417500879104,816.0390293635807988477988522879581,-532.3955918417362633476219904804928,178.9323891623249088497936445160735,-332.6563678777737914329508172871551,1157.170236508629926834781739445832,-2245.015840931307216841052765208623,3503.538733768951321875533682712083,-4857.143285982302954463565580063603,6228.218875137458146838039584205111,-7522.349212802909496011785539297989,8619.151176159388386189693144381467,-9355.270616073148546995601514361491,9517.132417483332916593524985734459,-8848.885882133861105057567307493323,7136.481641429280792058204181431543,-4431.407314487273434834476428327379,1432.375883617071110367004798216985,-2687.503637034633410258656695685689,9333.066050922091897617781395645132,-18054.30868460269255391427499419675,28047.0547398697687537445181643623,-38638.69651300710700575394346576928,49121.90795351995360463082480476931,-58663.55738347215919759795862735142,66233.60783584451974257469098274136,-70545.93935359231943739834736968042,70080.00157814029385932648884484671,-63314.0342447458330427706009781713,49438.24401233823669145818506212402,-29748.41664167257352508496527891572,9400.02026001809995159522503295665,-16534.05320705528118626719671081891,57336.77316110384009288563901051224,-110623.8351520701371796973784173362,171168.4717092788807073334512807185,-234508.1597766613749324814685342695,295945.0404602954166901654795672248,-350072.8141383241457109472536786745,390474.4355069826460774375625839923,-409651.3555243833577127893637738693,399554.8081757504444980102113755129,-353417.5088846904175014867217893916,269808.986375708243720728413424706,-159017.7135245861304759794756442756,49538.47884612572658491913442829384,-77819.18848955211207800930272144194,269532.5463912866053042241193931986,-518861.0689700216924070484682065962,800127.7098322420637398241683025592,-1091122.271952557973443555260529323,1368575.163725558595100724750643699,-1606282.41764199835892387477642803,1774279.680600927115330127211095383,-1839476.995205909916426654501089146,1769301.66364166639927104921815251,-1540841.766771997126273995754470832,1157719.078147084213409247204739912,-672767.8923463905216222785495348408,207637.4185958471729651001584888606,-281930.1531028525296542641681395457,975504.6971593469323361033692694741,-1874416.351057100033462498341159322,2882527.178431991435820088585251658,-3916022.092798204807148394422327568,4887655.218286550020885348716963682,-5701048.398504338489058142791054621,6249426.71608817574909572326924519,-6420324.862523831080012001734045089,6111088.550479818821402156668899372,-5261773.843100049357593649673072428,3908874.333994534828210421687354252,-2249422.892534027665910995099062136,689863.6568043043541671499145224412,-791349.5583894944582711797842356419,2735963.315807425406159784913699925,-5249430.035043682218728904769081011,8055162.723152889622141657008198571,-10910904.21904196399393991911183688,13566083.6412171030393510788623453,-15748276.97784645810611988875394502,17163279.45776778593116245651562743,-17512806.47311923203898580047440812,16541377.25542106451453176833802081,-14125918.36084694316821637602138386,10409997.62059091268885835030650364,-5950098.439174270212605317818933206,1816921.893151315400505025863437973,-1731324.860429420317909814880524551,5982207.195661545254227858230443663,-11465391.8904275045045918802302759,17564950.68624261834106279753944835,-23739964.97303148412792099393448245,29433952.71000535843686495333906689,-34049285.12082825960144329881557709,36952927.35726218215322036767294651,-37521460.38225836785737757705868776,35247245.85803722680574789910833645,-29927909.91895311365186077457983011,21933544.3628817482778256134417438,-12478982.72755358945773380123034946,3799493.61699171778477114799263903,-2967133.393331606059847820594478551,10248109.20588680529138214915697946,-19626772.48801187358227561184226322,30035138.66154234667863147853043541,-40533925.76174539262226058587509772,50160605.57113290864916627835054494,-57890241.57808950377985357853750922,62651511.35750909224238124051423698,-63410342.56487497532501709177447233,59354599.94564990611905622421519158,-50209853.74610420402433376557842549,36667341.45389995680904588419252432,-20800548.91050508988985261744900751,6321514.211259071325564575359536915,-3998160.307489448944142308861099633,13806070.94834698614519810513946861,-26430074.47127802128065079264778021,40421983.37813011164632327469427755,-54507267.15965697345034148581030095,67382768.02625782853732895767262475,-77667375.83988794848885121659919048,83928036.60565442962194989194358804,-84796854.56020574398220294051281245,79221366.54992278187009129157567246,-66882890.54525299523644524553422555,48751518.1781504186879217041194552,-27612846.8684577618293983361620206,8383728.058908241051625270403141908};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,double>(double* c)
 {
-initializer_list<double> lc={-680785.069835,2387450.17514,-4652428.45103,7187728.24115,-9662262.49821,11746229.6406,13778989.9126,-13493401.4106,12352568.4346,-10484165.1035,8096991.68275,-5466034.88809,2920276.67638,-856461.606004,-13174694.7299,-1227189.81404,4275962.04942,-8258359.67922,12645634.4182,-16873430.5251,20397694.6972,23760656.7238,-23219070.4551,21223301.7647,-17992969.9449,13884876.3614,-9367986.91492,5003108.47036,-1467034.43283,-22785192.2129,-2208225.37578,7656535.01605,-14685770.1307,22331616.6407,-29622881.497,35649124.097,41291637.7298,-40280738.608,36771896.4805,-31146099.8433,24018851.5835,-16197714.5818,8648013.32397,-2535404.35929,-39690840.1363,-3974685.2227,13729577.6594,-26194161.2296,39615313.413,-52305888.7065,62720975.7324,72317181.4515,-70447471.5657,64244195.2514,-54373899.3333,41908228.948,-28250977.0903,15079536.9369,-4420399.85885,-69647526.1296,-7166881.09722,24684744.2018,-46901023.3458,70630869.0064,-92916342.6391,111100892.421,127630876.997,-124189133.786,113157710.656,-95712511.4822,73736092.4463,-49690862.0796,26518089.8214,-7772643.07564,-123109877.838,-12959106.1972,44535643.7203,-84347945.8028,126604525.893,-166073452.145,198129438.143,226942726.632,-220618328.877,200881957.479,-169824958.433,130782642.203,-88111599.6929,47013854.5755,-13778876.2615,-219176521.063,-23514726.8966,80673467.5731,-152414826.809,228184490.216,-298650369.871,355666306.844,406437746.753,-394812834.947,359287819.256,-303611009.0,233738977.67,-157441928.495,83994955.8184,-24615551.9313,-392922516.031,-42836394.8569,146769088.385,-276762234.482,413524854.971,-540279839.475,642528862.77,732871505.653,-711467346.772,647141950.449,-546662422.233,420746023.239,-283355339.18,151152293.65,-44294033.9333,-709076968.054,-78359535.112,268211540.267,-505028172.02,753427665.039,-983026768.826,1167777189.27,1329941657.38,-1290428395.17,1173285384.0,-990812476.593,762424670.031,-513384977.186,273832863.129,-80240723.7556,-1287619920.34,-143947470.71,492328971.348,-925987857.857,1379787775.9,-1798333189.53,2134429897.74,2427769119.74,-2354594152.29,2140105195.36,-1806796726.76,1390059429.39,-935889883.658,499152531.259,-146259878.073,-2351823761.77,-265535342.588,907646460.04,-1705646675.99,2539163463.24,-3306577034.2,3921745300.49,4455975702.53,-4319996367.94,3925274824.66,-3313179376.67,2548584064.21,-1715711120.93,915007828.738,-268103660.655,-4318648064.84,-491788906.001,1680251122.3,-3155382478.75,4693890412.1,-6108325053.72,7240432051.56,8219158540.24,-7965590141.11,7235798188.64,-6106237944.12,4696424393.49,-3161359944.0,1685901040.13,-493968256.597,-7969203024.07,-914272692.981,3122592944.78,-5860842341.56,8713298429.15,-11332471883.6,13425989716.0,15228342619.6,-14753905684.2,13398889445.4,-11305209229.4,8694018557.69,-5851883230.83,3120587431.93,-914313711.212,-14770820370.6,-1705673815.93,5823865068.47,-10926159840.9,16235912347.1,-21106124508.0,24994018456.0,28328109111.5,-27437638804.4,24912192125.3,-21016177887.2,16160415780.3,-10876848809.2,5800046117.47,-1699359011.83,-27486576328.6,-3192345609.94,10897420034.1,-20437305164.4,30356477409.3,-39445625982.2,46692922281.2,52884879792.8,-51208866819.0,46486140771.5,-39210900876.7,30148880966.3,-20291049287.5,10819963988.9,-3170132055.84,-51330459448.5};
+initializer_list<double> lc={0.01548694501931670235008337172098522,0.03479667647853553185493684803296694,0.05433880965100836897655448882481636,0.06857704435284856993467310028590418,0.08485791116530225937583690975086051,0.09078157953835376749682153623925073,0.09765843488669931245176351479442319,0.1036143915653123346504342669434504,0.08782469280754984363337892348937416,0.08937084943452709920043850980922861,0.06238242519373362883736257607867474,0.06244994123995076490798999363730807,0.02439485379512568288909399178569142,0.02731970776145213757622190885319808,0.1021494781000412816196272004605611,0.01939817148120995840711836427250608,0.0211067581595321269384689088278857,0.08121477340166233011416168078233826,0.02586655766256385795762420944705489,0.1456412433875267419726235290556113,0.00994444767136215468553147558678894,-0.02865558414661822321673744921890372,0.2552237320635022537246684511183629,-0.09071841565465285033691830575765345,0.2961902894578757448917340703429988,-0.1726834420465857415489806238984482,0.3200777775129626312883097593412251,-0.2274546001628399563561448099924474,0.1713517902485984794877074271561818,0.2048598047635475398369538390813942,0.1136884298670825987340258553312503,-0.3086139811930171078243699344707191,0.727375257813943516108082822490209,-0.9981723891247870876168204768293324,1.597212971869622178004713179975654,-1.909740510796558388565682973922339,-2.971674785716694833529205504822165,3.730603054864996435777963543897095,-4.084493655118041950245118367193094,4.747370057746945257060717986274051,-4.916751597781690405773008010888876,4.960162410743290847258913909724261,-3.909078257754967959726985517449424,1.673159390637921755651975405159546,2.624850312236741536584473922336776,1.885809002530938783613966551148968,-6.497784951233960984375479634122451,12.82813412801130465788627861685805,-20.10647053691677136090614291131674,28.54324420064935210606459797335228,-37.28918654693505359598797147432642,-55.93130572386963547114695314633951,65.05589830767824704620137881859433,-72.59358446854811436350140928802416,77.98231408415399203586622947570707,-78.21421309479970938455355695551967,70.17722141225433111042673682971036,-49.21901882126405221820593761898941,17.73505534001073558627132332415326,46.78167880259831102863884641180707,27.9098377517754591402830895894294,-97.25965986386251988045943212249463,189.815551125285219596575144887665,-298.4618110115440001935328679927528,418.8263092882996388843399146650867,-545.6894639608232707277140854720097,-797.9407525762504103772483737461375,907.3534254681466753208222862603225,-988.1633925768201826977692967467324,1020.401630323403469899376429832675,-973.8494311545676636268798971522986,814.7390693567741952337710085350903,-527.2709992282282943907992653429453,176.2662882115434015514901913350486,674.5379127605640128439765401014261,324.0593533671237774039745972689825,-1128.627698032414027769863157571901,2195.608985214041559516847156037748,-3440.159018531792083393851182127573,4798.463896118086121925895883805775,-6206.276968846755247916436530819228,-8861.180030041794528692707604158564,9894.489752492182122187196491667612,-10524.76789923827214157095966528296,10533.92974863634773413285684603226,-9664.014026886427344098723239950291,7708.397419344902923996412971427752,-4745.688342922799591145040386302581,1525.715117892192562919185001313421,7591.352635761839380820264214974063,20375.3374178553975523514611918219,-70785.11207150138788251208963945376,137038.6287917585859650554360503397,-213177.7716851228178764120672096678,294358.7967973297519777010470446781,-375652.0106642814493937601093253794,-515294.5022491727386832281937177042,559135.1013124594091698168108041403,-573806.954444953602804825753152564,549618.9077151293440100040734889375,-478886.9340500453832315703730113973,361128.6937808107634058391877266453,-210876.3262124956530426352215793376,65329.66580160807655670601724895346,451495.9797606217042774697740799878,110499.9168571967210739651668532831,-383466.7103141850512212723841787197,740898.9016367143538566776803030291,-1149091.68456520394598378919898957,1580150.350971574294497933672845874,-2005654.835970239848681387010157895,-2708763.568805010243436827918497768,2908201.828489469848025814483346821,-2946765.351367637935938067352757412,2781148.195825193895871238806166175,-2384093.326849870617848128899401032,1768448.034898132207905754336964133,-1017870.020424873280032432618748628,312365.4086644126330696010632683688,2393994.461551373967558181323297493,467718.6802151394785678077652077971,-1621617.890979220545936455178157922,3127815.319160658426160964272263526,-4838766.058550451553813330024939002,6630914.825912606021963534802794975,-8378630.012379722349498151592961738,-11172933.71559095697931497818564941,11894393.98583663042019079958978691,-11932764.33153171692549018772298915,11135847.14650567855052338771011477,-9431327.033964040882254734897877055,6913219.366147356999919845927379599,-3939018.83592911290843120598430574,1200990.963630523080976557460824681,9944159.288592302705217831007111441,1553616.424046339494947664860295215,-5382402.458684558585867870112274569,10367191.03412227060722909895061737,-16004841.04957765977466100094956978,21870747.70320094379318374304410743,-27534583.8349539852336366836989128,-36347405.67710968343278330905970966,38439005.76290117980013044594398246,-38268877.1864589368917625636038651,35410431.81286237500833029025201585,-29723410.73339552339226372280438776,21600808.85690208623110512683571788,-12219714.08312803974653768694317525,3708881.587812155159409860186525727,32530553.62694712326744603086724636,4072208.796209749242039069094349381,-14099364.35012566139118662490476808,27127108.08803906499746288642488323,-41810079.63293033803870294710143133,57007183.93423492379021095176719008,-71565967.15100156347919119451699406,-93735971.31563878665274867476330855,98631965.85954464762723296348097523,-97632445.69691862919473421589975493,89772380.80938808408927674860760762,-74865172.6581101583233636074138176,54071624.04568332691882125504374856,-30433707.00812072359480760162278575,9207838.924847416267771750441551343,84252399.21710751342200426507064786,8464554.536249713202108325533949137,-29293847.36020258264387021074470606,56314485.98020123586689981872275089,-86689203.9972065854474494438683506,118003781.8144402585353299230501695,-147827416.5878454774878325910761574,-192513147.6200628190720168217476167,201828541.2539529062748978512806362,-198958084.5690587016774066356424206,182121195.7826051877861784803318138,-151183260.9500608292227447443736294,108723885.4870277648969514177432693,-60980235.92929554013107442255429376,18409745.94334420129887293757997705,173579008.1400145595263697238649329,14009987.2767972028467227591219537,-48470293.57600902485148135401736384,93126672.844081680930613702165079,-143237582.5814740208504904766830489,194760678.4492351428191913025076142,-243635138.2880626467514442131100295,-316060616.9600131317886211596895903,330547395.0913238693601819840179593,-324954786.492119862714560544726221,296579119.6407836139801673473493017,-245461539.8331232876369869211849569,176033542.0387701402285872272176236,-98510263.86741379525852218345806696,29698612.03678031282767926950641753,285574216.1890805030593162131372078,18520473.01252064781323421152832414,-64064297.7813418933539149111675607,123049458.5956426580799485570658686,-189175054.4688124040087126484335376,257064090.467037756819004678028548,-321322125.066545155390657508506229,-415966587.0388190337858959144064419,434457864.665617455022013722956634,-426475689.589787793480538604060674,388618068.6255599467584183183694312,-321121911.5016329838677254285611823,229952248.1383140546694757158325706,-128530065.8614703390964945736736536,38720400.6045717026438319708509329,376273129.1931416401882551284217526,2918.957390681464612057984806518727,-10153.07746760739948872393823721873,19701.17703727105683439408171880756,-30752.67410219426425299910208388505,42666.57000691289940060669768964159,-54794.58470261035635278338533586248,-76571.62716017090949663213091313898,84175.88654854786396775394479605221,-87781.44384221246938786439369150847,85712.4134667229778772459278940561,-76339.9086251301931952843500922122,58915.65955994871205813585897866819,-35135.70360013797799916675757745234,11041.83537826636819823734658284948,66397.91951466522850776106515053269};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,double>(double* c)
 {
-initializer_list<double> lc={135465586.136,-460681378.644,858568449.226,1629807732.71,-1913730754.59,2091186142.27,-2150058053.61,2091021969.56,-1925588535.54,1673523948.54,-1360201074.65,1014354364.81,349584899.424,-1265147722.21,-666637158.937,-101468413.497,213698102.776,-726651643.726,1354004975.98,2568840128.65,-3015293660.71,3293664297.33,-3385101998.96,3290932468.68,-3029510421.08,2632110049.83,-2138732812.72,1594575370.89,549388050.833,-1994694419.56,-1047777239.12,-159451248.582,346179119.633,-1177001850.17,2192730225.57,4157572485.56,-4878309665.8,5326537343.82,-5472175222.8,5317822030.7,-4893552448.91,4250190222.01,-3452493356.39,2573448851.37,886360944.216,-3229410478.52,-1690664736.38,-257233463.555,574550352.097,-1953229206.57,3638078528.92,6893730525.02,-8085638146.94,8824877076.88,-9062308063.2,8803021269.0,-8097519092.6,7030431561.11,-5709164909.31,4254460693.46,1464852581.12,-5356578874.15,-2794477718.41,-425086576.175,974350531.965,-3311986937.89,6167614970.62,11679485068.5,-13693417224.1,14939026732.0,-15334326360.2,14889281087.6,-13690544057.0,11882113518.7,-9646011752.45,7186322406.6,2473474106.6,-9078385000.87,-4719274302.8,-717722787.111,1683639220.15,-5722307309.11,10653943645.7,20162445976.2,-23629833119.6,25768448096.7,-26438923570.2,25660761394.1,-23585423854.6,20462556200.1,-16606478192.3,12368681886.0,4255741468.72,-15677567270.4,-8120902095.74,-1234782475.7,2956394630.17,-10046957023.2,18701931974.2,35371373580.1,-41438339848.2,45170081507.7,-46325822386.9,44943720659.9,-41292704800.6,35812554647.1,-29054849881.1,21634813844.8,7441461458.94,-27512784554.1,-14201937753.4,-2158936055.13,5262505960.88,-17882015706.9,33280060395.4,62905859082.3,-73668167129.7,80270297293.6,-82290439773.9,79803248558.8,-73292537064.8,63543572743.4,-51537593411.5,38366318949.2,13192044135.2,-48945867638.0,-25180265967.9,-3827020425.89,9475650364.31,-32194867184.9,59906431484.4,1.13170276042e+11,-1.324847178e+11,1.44302499394e+11,-1.47875817261e+11,1.43350721831e+11,-1.31607205015e+11,1.14063450821e+11,-92485254952.7,68832490356.0,23660117017.3,-88083374859.5,-45167088141.0,-6863312096.04,17227359025.1,-58526448357.6,1.08883438463e+11,2.05581338088e+11,-2.40584938695e+11,2.6194890402e+11,-2.68333992994e+11,2.60025938266e+11,-2.38640001381e+11,2.06761920804e+11,-1.67600285204e+11,1.24708077425e+11,42853318005.6,-1.60057445932e+11,-81817195768.2,-12429985765.3,31576068889.6,-1.07262890124e+11,1.99519643417e+11,3.76514298828e+11,-4.40478056515e+11,4.79423779431e+11,-4.90932241172e+11,4.75562479272e+11,-4.36302030665e+11,3.7790326443e+11,-3.06244199182e+11,2.27819298486e+11,78262193238.1,-2.93223157785e+11,-1.49439347908e+11,-22699102641.7,58274418286.6,-1.97938096312e+11,3.68125245178e+11,6.94346133517e+11,-8.12051159771e+11,8.83553153296e+11,-9.04449702225e+11,8.75834658132e+11,-8.03269018581e+11,6.95546285962e+11,-5.63509250312e+11,4.19112300517e+11,1.43935745018e+11,-5.40893277128e+11,-2.74873153282e+11,-41744282295.3,1.08174897022e+11,-3.67400605899e+11,6.83186806881e+11,1.2879961745e+12,-1.50588800347e+12,1.63795687159e+12,-1.67614079973e+12,1.62258031464e+12,-1.48768237169e+12,1.28781100997e+12,-1.04308452492e+12,7.75638475396e+11,2.66304976097e+11,-1.00360632572e+12,-5.08617894322e+11,-77229000359.7,2.01805253626e+11,-6.85345516814e+11,1.27422371708e+12,2.40118080284e+12,-2.80659308193e+12,3.05179823945e+12,-3.12195241811e+12,3.02124483788e+12,-2.76924006275e+12,2.39653853871e+12,-1.94065559347e+12,1.44278749072e+12,4.95231982313e+11,-1.8714653513e+12,-9.45949168472e+11,-1.43609669766e+11,3.78085907103e+11,-1.28390527786e+12,2.3867584707e+12,4.49573191723e+12,-5.25335570894e+12,5.71064800265e+12,-5.84014964178e+12,5.65006034048e+12,-5.17730348572e+12,4.47933981801e+12,-3.62642590597e+12,2.69556698933e+12,9.25011744461e+11,-3.50477943849e+12,-1.76706004393e+12,-2.68223687272e+11,7.10965349508e+11,-2.41411433735e+12,4.487199128e+12,8.44866336634e+12,-9.86986304382e+12,1.07259835049e+13,-1.09660216164e+13,1.06060289636e+13,-9.71592200995e+12,8.40398658134e+12,-6.80228297275e+12,5.05529595199e+12,1.73435763137e+12,-6.58790428097e+12,-3.31349220654e+12,-5.02880009315e+11};
+initializer_list<double> lc={0.01349022097776155469288578503459811,0.0314279629951824571654827355119911,0.04698737330794294586664023194284438,0.07345478575330430940672188812080006,0.08636939182540838863599913948004809,0.0890178071285127236164968634241197,0.09754771266537319105436080726905555,0.09131430819887298733645784873438493,0.09536076620049494107109411684261041,0.07979417499966278845273090143969221,0.08041553983513388331698275565453432,0.05569811537644568923985094375639061,0.02157562658951848807696503403932174,0.06325644000772592632781347865905192,0.05546229873410799633706588627465895,0.02412700790872676310437449709073161,0.01041555203131189034456116517330605,0.04219114386224318490441253335699268,0.02585259690661471368962891405667976,0.02562547875012194151177357161638318,0.1500023178045775939485393648595715,0.008136289984468000166654659037182026,0.1970554386586907026081914685866764,-0.02818103703304936891706122163196873,0.2362258460460136150098002306052913,-0.08382600774534589362160545376976816,0.2679603343926934344201808213432485,-0.1557653337850175253883630369227077,-0.202695621772206622927513247212677,0.0968529828342800279162661168409564,0.2858568057975830996424700139143007,0.1520057017304049186530698923792288,-0.06537133769994487053695838296185765,0.3072940365400761485454719167798824,-0.4939859684954647891685914618317714,-1.14470357745165178782422310989853,1.700435649618988561139569222692845,-1.951087129920032122245612228534269,2.588047209293261445491118428516815,-2.866899863999947677198069394921815,3.527867754456033850053471686916826,-3.813739657366436942384373642126461,4.380109954499443308474139599413855,-4.501695976083804661026741136460698,-3.536393685402610783326482712326902,0.9214402564578421580517596090267445,4.508799369704581137428674368712879,1.50706736465575115258661328814626,-24.66573011462379298776976219965984,86.18170450278880685928538232114353,-168.2362048998451831088760811089554,-373.4413828164933730295461916455377,489.3046926512049697161292346460227,-608.6710945699782576394545347371239,727.7275140552024949266383783386261,-839.6942511978939181922259187370109,936.6163774626017946635500120140333,-1004.666033312626908933162286037703,1024.778727378309997324044496515927,-968.237138827915539935403316404624,-516.4331599727268089121849673094917,265.4345475478726196940863767959031,803.3039869145901446756683042751287,171.8885070773316330049975373912969,-309.6345266230753068541786525396837,1079.688005413717104612116054275779,-2104.344120857710126385389097837793,-4633.917092432873203524166042679304,6031.869004809695317582173465353356,-7443.95538188348979194092614181583,8801.825807518198072193666204822143,-10014.89637302627488910939206221143,10962.06761392659283591343928854966,-11475.7614176367137468804906451298,11336.49244946401863284970124131527,-10287.72052401687300991295579962339,-4971.525119996433356123113088559764,3307.619980128519967684683098450458,8132.181815211386661418879180466389,1591.280871612486224782781787442443,-3066.775991912408142039407277911596,10680.83358198762804157978872919655,-20774.13514007822915441887807896837,-45397.11789086679748867744061319191,58741.05403828065374054804025476579,-71934.53436403724241667674788705962,84207.88439919055276398138579138703,-94594.34968313673430914099355594323,101861.4158674799258040184341112406,-104461.2383834219323315332069485284,100594.6229524654456262756235588741,-88560.73242685112378763666729084758,-40077.76377268542646657530206011333,32547.29217934828830092467866585901,67696.03747875911830960265161385955,12538.86635370289188031142575713066,-23920.39263659121645058328162628519,83219.28754669664446044331834467555,-161542.3551289634008253652072845992,-350530.1715794216431659290678383015,451117.3582185521827515471088833233,-548605.0101822387030053541065316375,636549.8295251792440745305073462212,-707170.5486058857081107661018290001,751082.3071223287623982769214214406,-757420.7636211661492109978288954294,714978.6641463210399892557122052115,-615381.7138184846191176424761311418,-266254.1391403911153696729724216368,252341.2796728782922489147980294561,459424.6483855441708167344391801779,82113.17258938729969788814448785769,-147059.6288165629287881760674752723,511128.8095723841536876463214704128,-990428.3742936584591616367099916448,-2135658.318824454625492735843246476,2735451.410456762572248432165032054,-3306480.631560549145029279819748157,3807537.058772526849816810670624678,-4190601.330681175998154101924987191,4400647.22033996532057014851957522,-4378475.074998554700095783672768346,4069719.956244189760469745422905631,-3444219.99701987240104975537313806,-1443884.310587003889156903101683991,1543025.338357939850328827444781316,2528237.221096686019417135833483779,441062.199447632539208346227825714,-714824.6158094610919137586029731737,2482394.008828406615146858655120646,-4802777.008522312777843923425824782,-10300048.08896985905523053524352193,13139133.18125037051373292664710434,-15800508.2738135997617223527381383,18079680.22319378964810003801994956,-19745839.60599168903308792068874116,20546204.28728605277521278350295948,-20226136.75307780062345993531546648,18577012.42249265660045688340464645,-15524325.91164659956338273541038278,-6362337.641604278885514949417423906,7465221.869124156909204557954996832,11256439.0804710798083693822414079,1930714.467590863311562137031517559,-2759131.076754568881288798413154462,9574870.558751390653465068339387424,-18500598.43744049136846964951645896,-39495096.19234549294576151951884719,50210302.78519437363232219455708201,-60124074.43118446756181722877550021,68439615.26960649905786155216487925,-74282043.89493158337861088851698609,76729869.72837663315450014578052434,-74907361.65286621761816895691738706,68173169.43429923653071642032093089,-56432508.53653780621319435265774332,-22749874.02616050601985133994255817,28700643.07303687200946238186356958,40550722.79519484957309055506353327,6871496.332769668204358109339938428,-8497625.16981641543814580910686163,29471487.47218890789979495194565537,-56883564.38921616547012135093016501,-120980602.2598599937154624257451539,153378479.9175379484556102303139865,-183032340.6609541608328335734198791,207480804.4933259709023581726361167,-224082861.3697767035338720102875588,230146369.0698785524433857285262836,-223238582.1801603747262375518364062,201761599.6154861283561858153261596,-165834362.2968365251070963682080835,-66054237.63607031464517350567390715,88104843.51623610340917771266631162,118375850.2850258868474222478773494,19884743.40194927735632961013948833,-20980096.69944671751594265335948618,72729170.66555031260986066245304925,-140256257.9428433500206625357379392,-297416905.262703629662190762374209,376245864.3647381252912858848773819,-447785903.9694525319789458576846193,505961986.2405746286284579464076845,-544375304.9193249156302495077891415,556673364.6515901879331767833448315,-537351897.8423309997803189775776245,483146167.3411482581671279467098688,-395046860.8538882613080155990588979,-155990013.2221939953768678817819813,216963769.7890435814346153981998553,280636140.2097689334414122588000699,46846779.32747257794475841151870825,-66936838.27229425886178353915853416,231904548.171185105440498281373987,-446739494.8590806038316641245659851,-943803948.0786468240531791534764967,1190720384.504360219845065962965231,-1412409571.545930953633962163385749,1589556758.054695860558426373070624,-1702294261.696078414179636985072848,1731560161.985474138827563653898847,-1661742878.860932591233916997701765,1484943191.779187838503125986080183,-1206750740.660840564477098295106172,-471731994.7301487037813885754142184,689968300.480172000856586566775172,852471948.2625512459862604528761172,141284437.4386140155717188448806021,-1.548023210590897087429429012923335,5.488463744737929113839781820770357,-10.63485217861699093949037935915189,-23.81815591504368532622996962004731,31.57092334695854316406841610225284,-39.41209134537940495531800720815629,47.83428285081671140624510453388466,-55.82536521635979841784230826988695,63.71957449481581090337910931436424,-70.08827674190698283195524389715678,74.42039997890148432540201006713769,-73.96455154450878554338304095364836,-45.91598518238771008470110809546315,16.96148302605724788587347117471576,65.86157097211920414186573594011155,16.47290071620982272872830686577325,-41697253.50179568782250206062631255,144495997.5222003926404834700192703,-278477997.8189811906082418532161699,-589213471.4909832091705744917077293,744177939.2915135268277079137265576,-883917523.4354684130206190654430421,996378571.2982259041361612846830135,-1069042083.09018866987586681856312,1089727989.456209123236557849867474,-1048225183.07152110624173706200609,938995415.8840927715216676823362183,-764936807.6917554806015612829759031,-300210159.3152387040971991857744267,430373303.0638772216191460548405294,541561630.9325721111988536805516435,90009633.90005701145163975622832086,-87011219.2017913504180854832107153,301412944.8369529578358032419186793,-580500275.594049056741928648187024,-1225378680.935416199256837158959258,1545031076.061578846184813449161773,-1831337459.166435461664565879595862,2059221161.603055260883321763897335,-2203025012.385448828506212679903255,2238322462.109808669109634908188489,-2145370224.210228611931306831236829,1914587738.246513227994125750165202,-1553877495.355938637823287344975726,-606142008.1591846850515317086201423,896238209.8515612788450929158244724,1096391674.307444549266703960585121,181437109.9862785087700847112458169};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<2,long double>(long double* c)
 {
-initializer_list<double> lc={-1.44337567297406441127287195125489,2.65470053837925152901829756100391,-1.76853598869462141624860782523333,2.50218995346906875953341290652353};
+initializer_list<long double> lc={0.3839745962155613532362768292470638L,0.8273502691896257645091487805019575L,-0.3273502691896257645091487805019575L,2.116025403784438646763723170752936L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,long double>(long double* c)
 {
-initializer_list<double> lc={1.00000000000000000000000000000000,-3.32379000772445013110755923986944,3.43649167310370844258963269989120,1.64959666924148337703585307995648,-4.78568501158667519666133885980416,3.75514084041407928684859596988032,2.94601792213815217620118779490752,-7.74471701776623530154738625169971,5.25791292600037724175496741484224};
+initializer_list<long double> lc={0.3135083268962915574103673001088002L,0.3237900077244501311075592398694398L,0.4754033307585166229641469200435201L,0.7658770817240728893525918250272L,-1.0L,1.7341229182759271106474081749728L,2.02459666924148337703585307995648L,-4.32379000772445013110755923986944L,4.1864916731037084425896326998912L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,long double>(long double* c)
 {
-initializer_list<double> lc={-0.135307244904688787411431296975496,1.36140068465488733668292376422488,-3.97544968197561526882229403937933,3.81878808642839043193882832768355,-0.537612925375784480135853564851234,3.00404135671062937217916717984556,-6.49890590866445442087731334533293,4.60431971202729624837725199101190,-1.63717031842245700354336803004939,6.84757575688715536726519348367821,-11.9249796863829679117446327133569,7.12227177834886743621767783385215,-4.10029878721799225771340611081784,14.7751596370192998341951206152680,-22.3365646864978729902361776703725,11.9887073780806096349127195892873};
+initializer_list<long double> lc={0.159892794073637228090617425888332L,0.3746745146638467318680113513773535L,0.2326886670549304885991617344904421L,0.3021758684105592638302362437974678L,-0.09813695212371872507467908472658729L,1.217419912229901138591268297163688L,-1.126040381134873365015838643339703L,1.33676689923626281909791655135098L,-1.555650264887011102112959242958644L,5.71217729471743842988351609051272L,-7.411476007101212054386219115342721L,4.924939499063212859016995147340267L,-4.388312781993124328697913690970485L,14.14879571987528230537726586447862L,-18.36407808288280537677171232135244L,10.5341633007976736877043333922907L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,long double>(long double* c)
 {
-initializer_list<double> lc={-12.4080892450490375587308213492748,33.2494963343543122595047165192804,-38.2237939376551451088552478458438,-5.02873063465664557784727417127220,23.4580275600371839895298134079607,-22.9802116869279084515788861808107,61.1304952922655617531320397240784,-69.7821321606709158906772005941420,-11.6080506013676378348468198236619,43.7879095113950800304828916374698,-42.1725807054847527822486163824507,111.473716235233254622573504718593,-126.392162976933262911255515008908,-22.5124628922089691017572401806333,79.9859687144913883505789216338612,-77.0853906901439939750903731632864,202.751332845047950535923907231318,-228.757413485767381207785815917637,-42.1641229898811247987888566088867,145.555909669596589986031494575773,-140.652179469191843700916683271813,368.574355005736335933984903522633,-414.483182984262126760100116786341,-78.0638446566238302686280263411386,264.876374636341610152333990318813};
+initializer_list<long double> lc={0.1249848873257648797917168082283446L,0.2165807744953678825140184690459313L,0.328885883699785175599832291421144L,0.207446198422454702972579470100839L,0.1690123330872953627230395220540446L,0.2736433348855120129746243496793896L,-0.2873411116881622848188804993436402L,1.24566054607467744444552207931108L,1.027733593879064648395494765947205L,-1.028931018203933366514917905944139L,1.56237067825494720652750133746419L,-4.513091192373875942897730426227812L,8.36L,5.005716638827255591811654370668801L,-8.914996124708326855441425281905178L,13.89058135746642802717012447009884L,-43.57602600468803450612421690235004L,69.57319468236049318126783759199619L,31.03292314617647771395808359610471L,-68.9675832583460324198730153167L,6.383507357156019868249180225432295L,-19.92909653768494936362778603425554L,32.95892555453171086535347470393825L,16.08646520286414048447420822022451L,-33.73056692181408030893091990498941L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,long double>(long double* c)
 {
-initializer_list<double> lc={1.49639906743931150170865743165221,-4.95180935208180235143946990968911,8.16737188579422643880960262595151,-7.44012682160895177207402084354309,1.31773061430654815259391059778265,2.44419984904909201649516932059883,3.46885805124527998912589880976624,-10.9780747982168482045249387497191,16.5595161235581040943189567698421,-13.6754887605368487943822582992659,2.90311311209734720820431537689784,2.25641156056538447906452159834394,7.11511835867093589005360090792946,-21.6456349345666900729344518014013,30.2555924942497912188853069793345,-22.3416240113366871629470601435484,3.47355841317324175691484021542290,3.51124117949273710338609959959303,13.5351598873204907206130851821985,-39.6617231803398217698073670078747,51.4704918804032815556367028451887,-33.0427203786641164534802601768582,0.857972597257570309916028931380322,7.12633339478597956084901084518200,24.2342876134922468623845858854074,-68.2986361470160227079104024397649,81.5084716482095788888727615984547,-42.1205642015401486742305911687352,-11.0450057011243979267195579430256,15.9575705136612307359928024704931,40.9593172785713586917120193028690,-110.308373491478239521311464963708,117.679699400637902139903279302536,-37.7198023312642406115052298157596,-46.7864069848232444708783542820675,36.3789798788849947653870930332267};
+initializer_list<long double> lc={0.08224830193420374786401124583494247L,0.1923099048212986045432087471883763L,0.2105543804763861030258348459341318L,0.2713156988580679001952180438276078L,0.126633394876812956032087920660984L,0.1507035619316546744334884193069604L,-0.006719959467414466905535230167776493L,0.4985796042139986441884929296209541L,-0.3697062178590378361572193080267676L,1.127864269788084094250130063591058L,-0.8822465191348496592527815801857431L,0.8016241292260869670462133276583222L,-1.031539779445281201211949572285325L,3.956213008809840791463620771771533L,-6.635401026246440240841223202204632L,9.588164731313807056594674609283389L,-9.221577776926385818336790627806017L,4.724831249452860958016417160400696L,-6.877377257955776458884602390408206L,23.33559030686635271239792255059976L,-40.48583885691018783586894079514349L,52.38515929342717224349605576513742L,-47.1554645532578469382521471476813L,20.41724066087188473142696287833618L,-23.60072572309955603414322546477936L,78.08369615987286590405278033921583L,-133.74887763279709893520318574734L,165.5336505611025498347047739662156L,-141.7964709486535534375129439675527L,57.35933227680792492493250067175064L,-45.95447907707329013995922099247694L,150.7149989834443208575594586058392L,-255.6810933035150055979628075576007L,310.1279211348915415062101222333005L,-259.206997755970609654747008740979L,101.965884775324619042805607229164L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,long double>(long double* c)
 {
-initializer_list<double> lc={-1.91120187840706148059343153339619,6.65652759190947097926182607655844,-12.7292168648694984662764731379728,18.1176202649195974587105791611953,-17.4616733790926634353730548203877,7.96098671627692504368896267036905,0.392403593091850638318496741609958,-5.19865835727433058441028937337961,17.7863259875997465506681553498387,-32.5093393347882978136644467302933,42.6183498714162914750919707447822,-37.9642372564774438754821752867909,18.1682283161856404297400910069268,-2.37489943225972140043994937826719,-12.6924582123093563087501515401057,42.5222463481699544055616587560432,-74.5182862339952554415153487918320,91.7241851083633573607985030566396,-76.7869482599494432441820403305810,36.4779223930853985430329998272872,-6.36722877294198861104454960548662,-28.8016213917061138053390452891089,94.5845579492985955875880487692287,-159.757941566257764882047123910280,186.855037156516665445560863605916,-148.584647226412484336661254556154,69.0276582947818295702864174410238,-13.0466093395153273856608853441942,-61.8496467489083919740734662853765,199.450073684103533001519499240391,-326.127694831069676842085164319705,365.115860088233912284775986636401,-277.225297295451381351587775194686,124.642877080461840288276012062188,-23.7793975571716263282331655745455,-127.150589513851883135544067747503,403.254742674680672031828264052813,-640.329586138398034934086416724497,688.994905272083876945019711555962,-500.006854822796777795114554277379,214.902196977754856228751627384792,-39.4710270061112237052768425440148,-252.155218350409524792213670733784,787.350624132017907905283699702557,-1216.36742044747276254645881198231,1259.72396109181852482064404550487,-871.096011390937797024743593539612,351.306654629544856924200356477215,-58.5922594641566066942375759823070};
+initializer_list<long double> lc={0.06669415706708277134390921057212171L,0.1330261042814491921191535329312363L,0.2043210490475712643280740920612885L,0.1875833257086326454546176300272838L,0.221771429746878631879602688086839L,0.09781425233499840386941914673443233L,0.1142357256420078287421288575628727L,0.1222555829834589710962779021117635L,-0.05964402307639339622562977172428925L,0.5755766874808899190349362772226504L,-0.3827677980453352288523255084542564L,0.9796235015597571034848036798882125L,-0.7427904578767547773965412440324523L,0.6369809141746801889265462783479773L,0.9024427694566907779794281265946111L,-2.730905353140209039923198130447249L,5.585665595807601971267124935892812L,-7.697358205090036887610171357284869L,9.804926203659265151368431088068338L,-8.862574344249337848330644143708696L,4.294880757867327291795726274846572L,6.911048001671363046515297826622246L,-23.05150080552130850933854527274099L,42.7484578291160140261474066211744L,-59.60081632653061224489795918367347L,67.9650125186855095452261476703623L,-56.60864956748984752461074362947078L,23.1364483500688816609583959677263L,32.6246062177656405616505688788183L,-109.1602368537026281023387428965567L,197.1840159968316400483670083163129L,-268.4374929444874638456004923408108L,290.8308669696250060837125680427587L,-228.13377703228372669399529263652L,86.7949402219402305316576858420361L,93.39206631622796112016667982583594L,-311.2511852299504133959466929356941L,554.812735056393062673464927642274L,-741.8834488654793314080319835396732L,781.1499219497399986050565167452021L,-592.0978911792769898890900173146208L,217.7485675451454095143125019633165L,165.9916140882248673897636251014559L,-551.6793044566967051462424426469121L,976.9003470402452536307018046121442L,-1293.822182702559369513978169216614L,1343.28977367020233698050332810648L,-1001.480818489629308782375055195325L,362.7751248063843047038900040807949L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,long double>(long double* c)
 {
-initializer_list<double> lc={1.89420696335189271657828654653861,-6.74595407993036488209951062870800,13.6174313879350418040936549908116,-22.1325531490283795436868444953001,30.1354696018019658502034889756472,-30.0535602846122435940536115165028,16.7813564646508372455003455249718,-2.47654183241751771237758983174295,5.53044980216853652419590406662562,-19.7123802550751263836487899296228,39.4552306841891380568621187216173,-61.8202807478371281601911743699649,77.9162549778229211076493331916534,-71.9170865716099859533199335243895,40.5605506613702209443694904285352,-9.49268636734022096857912912214024,15.3636588680378007070923695084634,-54.1230023330262407141346911644396,105.511418085609196011982509718827,-157.829742274905696136850531422093,186.583239525287085530367282552769,-162.508358369306670570515474868443,90.6500150975412720744334356732129,-23.2936433611634987137940144645674,40.0312626350487827169113069068526,-138.963091717749303955679340327395,263.310898325098970109714813246196,-377.485157225711351710788662668533,423.961919653899505365296310308562,-353.320799779991340818918670597229,194.472041372165191939031491810626,-51.7366189890014269411866892230046,98.3082610019279501589859959267112,-336.410045088019414880440286648268,621.002616500503204411870861288617,-858.383104949994456155016957800032,925.006181742545133267956989671112,-744.496924143510302187173151808743,404.381959444669130815027763903453,-109.188285177905293839097960112073,229.685256060390168995854989551005,-775.805079807910415691813090436842,1399.49183211132587677399424419371,-1875.32610048063117680663992102973,1953.09767698607603208624092346102,-1527.59865050750421049019808417344,819.073480823665014023919769799621,-222.430881404536315490773459538561,515.019542667772258585894866718456,-1719.44701491993249769633859315472,3039.71234666054242403153643714144,-3966.04428445512004427301545883963,4012.90466143223379746541841606209,-3062.61683487494962501114632454293,1621.13250704375359254959145124682,-440.496988744971312113260400252528,1116.20019081785447632171833140071,-3688.02824601219497787439701475620,6404.57927458974619584256433769973,-8163.93419172268862194770757436753,8055.10446748427746148256560561915,-6014.38469250793627714333948880182,3141.79531687395626580896621586568,-851.185828494625477369134849091671};
+initializer_list<long double> lc={0.04942076171751574506628217940598412L,0.1153672809518468659736195590954345L,0.1486480617418856229339493252226433L,0.1944262589010400819496977173528488L,0.1625405503331183090455793185977654L,0.1823947453452211716978447973466782L,0.07757310892107921386056329368894061L,0.08948430383952487363068337500496869L,0.01330046022950022098360598571027216L,0.2410999059547614989521930573578226L,-0.09559807464591905676026342615920267L,0.5758332459065895160178646657167874L,-0.3640309393534350686645164234494467L,0.840008489792393842932632195776659L,-0.6245044726894454899376479016933875L,0.5155581460987411666803548785025805L,-0.5718248318056468761896529220776516L,2.260934139747629338245052121644255L,-3.952345789176248481984165186783823L,6.415062499972012985783275793619795L,-7.994225263991344114148612264074454L,9.449882670065030802654652443189951L,-8.202801128799655041666259584568451L,3.832551499030056894396840074455756L,-6.205572060223718334642804006191489L,21.53894781605725600793806218521833L,-40.12106568841725638113780524766167L,59.54907539846600551498888353640377L,-74.06949338419320312154798995859668L,78.30136546463997188644850305513667L,-61.99056728559683783913240773407135L,24.40559241801995736461582009858232L,-38.67251986640489857994500445397322L,131.7960898633427284426765002770412L,-243.9227185308591367587300542055599L,351.7038298634166780769099440887367L,-423.9998865523232223082323797398101L,423.738784702463271645362014574523L,-313.9111558558518917463152564581862L,114.8592936974642961307439739884086L,-151.1072851342123126582198907959443L,511.3823504371246386914340178858532L,-937.6650688762424088736859795918137L,1328.486819170562504490268410387544L,-1563.780548845562565637344869737087L,1510.341569929588182741275185713697L,-1075.244513873786984426548531969565L,379.349443397487110165730527631911L,-381.1890119636338177875169163638392L,1284.94479207985694515079044545118L,-2340.409827170593347241521830607991L,3279.687335764755004394005893749153L,-3802.157713752258064042129709779136L,3598.712273708988876617853232822873L,-2504.758377957576634098056236389202L,867.0688625291678503763708980852008L,-633.328922184053121418814107906008L,2130.528728465071853355254204374178L,-3866.496395887552886734901539113217L,5387.147202012537990159057040511762L,-6195.968052976638972598709572781242L,5805.068625403522660279141607219367L,-3996.000484207988394313176088699487L,1371.029444303349639387990236828932L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,long double>(long double* c)
 {
-initializer_list<double> lc={-1122.37853337868513288907107645526,3472.68754317920871035372398717132,-5504.45857587937396403055263349257,6520.15683125366459336103590739386,-6431.97481547377991062193825459155,-3953.50621672641479866707490786092,2206.96334711661149238613812925524,-660.403803910164190253513614032616,5473.93014369917938731633467451105,-1914.77786609897348069500567461242,5932.53450524017251620404172908804,-9428.91945106486055957473113593322,11216.0748505927621176994465520385,-11125.8798997027027580283018141203,-6912.00810877488854135449086463154,3871.70671922256012031694091415844,-1162.48089933961936452638348509672,9524.26619652708966338037876921974,-3274.83030100604689645901078300630,10163.8796248716098095955460530782,-16207.6950809326522794995892264033,19376.3029152507964379268457398588,-19340.6549967110950566737508912756,-12151.0136568717757634013558720536,6829.03899733875340451801297164452,-2055.08098274567793790800281634289,16660.4029888071800668455178466705,-5619.52492913534138380828473772158,17477.6969539292316746784233927286,-27980.8781111812526736951798623411,33643.7420889839618624080658745483,-33812.4379163001052065040276913372,-21491.7442429287831075796020230558,12118.7108868263514132987279902107,-3654.13234967576392736454480958414,29318.8339235766620363214791343809,-9683.02778741722783449462849303891,30191.0984813395516843831379764801,-48555.8620492776077813494786993552,58758.7621201311605941361365818662,-59488.5400631806917893939626024530,-38262.8625850438147421862613112536,21645.7195289864625526298524574780,-6538.68878769950693201587119162956,51933.6175770610834731735549177893,-16768.2775095437257779376737642712,52433.0530607269595290529903076262,-84762.9436219882766539763101371846,103294.652424145919875800996872518,-105386.284585534603977922480209642,-68592.1313721299725292170536960241,38924.8891361274873612267835585634,-11778.2331294643809532057729952861,92635.4588314248338888971540701060,-29207.2223989125978328169323534163,91624.2219838624851900101931442980,-148960.586247857636814125942941953,182886.590426046587476998603317927,-188071.357300443331412811009728509,-123838.091089782143371756533222059,70484.0237189235988262950232282445,-21360.8747190655853896722477930341,166443.455185077615785348597621765,-51210.2317156049329952437533915722,161218.510225010765418006721443706,-263703.274242517254966817271494801,326284.408454062978778420779941379,-338210.338806811977476895279565946,-225193.491246412638640223756123770,128522.371261141512706899001074278,-39004.8633662451587451551833800248,301297.051273118691583011497017185,-90447.2628019009693795394503462075,285824.206502260230485150510192373,-470505.856564211773755570665568190,586777.442858425078030572164964192,-612990.305674500963362393216828098,-412443.878277218098880475480310091,235971.359584509805484130827900914,-71703.7225379283423225298559933560,549518.144993898378325377833743447};
+initializer_list<long double> lc={0.04140687259619404189770223347259925L,0.08762980343276076914456600904723992L,0.135599045836636980821369854908785L,0.1477376964694734410676005786496224L,0.1772082098543740280901959685493069L,0.1516296120693847516713034079934612L,0.06290479210093389599719172707702117L,0.07194570342882915879837786579121492L,0.1398581444575998875939042530589128L,0.06574692253666811227492312489786466L,0.002721772077284838804354525465871955L,0.3012507762737732053200577622997459L,-0.1129516981258814291787874568257047L,0.542623289766644089940218703526602L,0.7194741517742726015430122071575473L,-0.5278105148340097354349052130073309L,0.4243865928814001262995130425657455L,-0.3334568460134697067181015901152091L,0.5041760066436726697608980259581153L,-1.518030249125990457326588609677007L,3.234444921379499276819057663090942L,-4.63861105992505250595001420340566L,6.678200714278875038092524639480412L,8.822502674959654615448981927628454L,-7.447115261059798373401255610281855L,3.392544851844714541780144697877273L,-7.834798315345870003878099550341411L,5.511191210152210852338159194992337L,-18.77619267937954939945213798379537L,36.10857887589187568790718474870417L,-54.31007130056964722027702592882075L,71.79935763587723650047969791465641L,83.81321919204793350361238782740754L,-64.06796587548457164795222621180073L,24.5826162476641106130964029305774L,-83.32286001790150335427171149924268L,41.83661357561175301740937025561506L,-143.2527552154219745779515009704798L,270.5405851019052783533358105829408L,-402.052503401779899007849799923814L,515.0593197278911564625850340136054L,546.0116157940260218449422818362669L,-388.8938386984728241322344117996134L,138.5709749288660822840382465041649L,-576.320011812625594244275030498686L,703.5504325226271670117905403120345L,-2393.527851544290932681332399069255L,4447.53327999300490461149021846277L,-6458.471043493387279555212375410719L,7985.07865895095429574812156276198L,7584.584849254545075989490575700198L,-5041.236882969673365527851651405404L,1694.458021334084654254302339595117L,-8520.162778331514224652144459927051L,1606.242414067206010638333830421455L,-5452.360259902677729415571978706074L,10087.46534709037093095825788497226L,-14552.37841989225918898637636064425L,17825.46209695592436589978829656758L,16483.99727995816724540044360154983L,-10792.16331881948020581542686077236L,3586.008632265740803694643629707457L,-18790.35575616932891447694232820187L,2529.885201198525616170474791831557L,-8577.13955457426203898457268236726L,15831.72251059437243397807638714622L,-22758.69418430957856403432848086521L,27740.82462647274191111664893873915L,25302.13416525674150388195547710381L,-16441.31731251372321623728592969556L,5432.690636648979979769418954591091L,-29058.12200865404381261546966838235L,209.7313251014558529411953967583952L,-715.7942505986454912410861748016437L,1338.874753595638854288775348096059L,-1963.661318862396918513518808683027L,2463.304436771849855425506643701375L,2443.886597723746111598911666805997L,-1667.136358189712359091372696519727L,572.0969302471853363994196856756402L,-2679.639989077419337343311792025746L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,long double>(long double* c)
 {
-initializer_list<double> lc={0.308663498961631026031881865242030,-1.29519460573904943059833301204681,3.36383134544788852438529409244359,-7.46704170044427746933960115448499,15.1437435756946248189634635449127,-28.1149391887591556339007816076186,44.7273120243530286916403110123634,-51.5468873805166148961187150677284,34.8175242682022478269417410442943,-8.92396510145890931804424272341933,-1.52106932316001656932644627222569,4.14309699845371759042237492965208,-3.67385821192568772370895218239498,-5.25448732421518124189362989691954,28.9574203199844939428757685333244,-69.7158024026765904996763945666390,113.808925824721959721824339102807,-125.650392502351261417690115156468,84.3362434533681409954913797456249,-24.9169449878014075117731344672385,-5.26633494681142659471648119129946,14.0368589575309157022481604922877,-11.5048220160715032307716640923302,-19.1837058142913483836687343384099,92.6464892649257350052048396786868,-203.805901381860080905538160396722,304.096737468838014740891355954222,-313.084697415744701649690745096602,204.840965825993155812373419194243,-62.4290389158604040865189955149818,-8.46011269871093486352194047763295,16.4702023861949795207766402014867,13.9265076841727536915765470666095,-123.397194570246125519243170882719,335.075694204977653061339312382972,-610.239318307469666369935085933951,814.289832541277426685848972431508,-782.039663125601240519034248168020,497.222850089700272049617700860058,-152.585493914559652773335371060707,2.85784472550783551917547849417534,-43.8753696339561295210592034975556,200.987582635969955580020905860345,-554.782865357743737530636623746483,1120.85134677455923251668003085761,-1755.45047972129367083603615962384,2129.77846410861009094504171277803,-1928.32159817453391748064265601582,1194.24411089397690238278884452828,-366.075644610117982120052424655885,77.7416181475056337752960580482337,-350.002291010293233944344670884804,940.823596305963446328250098587337,-1977.78018208407358392101455031970,3401.01353213078732973952488829011,-4787.03644976452766628704488351170,5394.40129008342807746359827290781,-4658.88336489919222727529221280239,2821.43834788203439830286633420178,-861.535950370525629430105676132539,360.492913314043511040813650075515,-1423.92811399765419831489307341748,3299.03903312874653623889348398743,-6112.10164140015418317892897524908,9519.30549545402670297476096790194,-12416.5342876240907789621454443256,13224.3365873405392224373807179247,-11003.2836784145556791440616748530,6540.99445560036367116052969209892,-1988.16433762081553280799483059560,1235.84509505230268338200809262116,-4630.76915849990167661402604148850,9979.27495264787796926807251645398,-17168.6773711309567708413919324494,25013.4235244642024188568402915594,-30849.4547947818774616981834599881,31456.6605104800963565067233180769,-25411.2563894491269343951676599564,14876.2787363621865328715632402732,-4501.18644684681692197554071357729,3665.76412838323097308358700204842,-13337.6168579216587115105569166796,27506.1866443475331078820192421684,-45044.5026382851341258526643183340,62547.2188502458861947875407496028,-73924.9286459727980822982497866117,72845.6222724125375283222912651760,-57467.2199843386587043422968211126,33218.1637380880397557633187350058,-10008.5626471046149353832741235895,9947.44870156147099682116899706432,-35502.9301050862728476065450171737,71045.7171227982398663692077122774,-112274.005155216469195745764552298,150333.185554406292572119478246475,-171852.487296796822008684905431833,164767.956596840185044710217266846,-127498.319898787130754741663939841,72920.0349227832179139832007069631,-21886.4866025216127598478375161925};
+initializer_list<long double> lc={0.03281756744702552085971625824127846L,0.07653959647969365521749903594200792L,0.105978956565177222031980666194713L,0.1403106018531142802617251722983246L,0.1396410192150721762129394854864082L,0.158674233643366085812596211153296L,0.1204982263866932985372123889184415L,0.1275324453656174374789958398431559L,0.05197493529708208955598754156090837L,0.05907915348857237399236539431924006L,0.01589065772912493286110593099066723L,0.135663066892107847096463939700461L,-0.009652252509687036333358333083822816L,0.3230278309110693986131443143742117L,-0.1182822666408822259742119223697009L,0.4974456106307665889018034549742902L,-0.3003354560211386611954720371386164L,0.6186272386195072067825932074817322L,-0.4495502997673865136569980150053224L,0.3546341868120262075388811158643537L,-0.3146245710690113368056987289370656L,1.285521280345619286033440658540645L,-2.240875777004244061577423565669917L,3.802479496296399902513280368015402L,-4.926015224431522874716393674653676L,6.594961574623816545378689922232187L,-7.435933800290923991853510009796685L,8.096912921308355967100409140113591L,-6.698332198855816110117543389610581L,2.996201514927814470927585597208662L,-4.626930839886205844653566304586733L,16.21858432678242522178339952766025L,-30.95657856059271335628281483297961L,47.92234317770852681653964263792033L,-64.49031890556478717943209065203796L,79.47205115471096420027115804601279L,-88.0755448648414106796892128672786L,85.57953856381943339012533069703374L,-63.78572088014683450237404718770696L,24.02587913094597833831256796437986L,-42.18439481079841284497948709860062L,145.6901659811771825862572916305392L,-277.7702080891448418906401776317311L,421.8788641478663928716267807910225L,-558.8441464449634515601492787703933L,665.9401520406571353866605841547082L,-708.9010232488384785243493514364032L,646.9446471164528621601766627017866L,-447.953526739671229758824695307534L,156.6250328777720259687792579660407L,-260.4344515750914919445049658039481L,895.092262164934613259174466470024L,-1695.660026349705977651701837640696L,2544.909484978679841861782175876076L,-3317.34048060254215604757527153645L,3860.235226464970602908960260251928L,-3982.167425544783444167061353896L,3488.488216029597520486443352045731L,-2308.370969871170535051758306447762L,776.8226014746018419516838936816625L,-1107.932299755600809004652849330579L,3795.777289882606281948891092333185L,-7150.666054882950855919349298137894L,10636.59774764143322555962324610342L,-13691.7993368583180571918401954902L,15659.35434357570465151045327365506L,-15797.62316404077722747722382282525L,13471.00242561003561121223212870313L,-8667.387834852403005507753641317753L,2854.39358137733480846501969927846L,-3296.127543126720048326762778821428L,11266.77789317939512964183506408408L,-21136.12704634627984762324619734407L,31237.00214837408649998152100502671L,-39846.81934600955840466866220759787L,45026.21444489933860919111789169737L,-44741.90622757768854723552344855897L,37490.89034657908479926377654120662L,-23706.19267460843494711660524993774L,7708.127709420926269095666543927861L,-6947.976083309557249359665292759545L,23713.30438551300119579301906255543L,-44360.31745830301628305994139349677L,65279.15775928403241128415501260915L,-82778.50148849625005277870396200593L,92814.0685326955412794956243199687L,-91352.58801197238697467314412605939L,75730.78967406800444049917322824679L,-47392.45404736961243318707164632433L,15296.44926957358815824192084561011L,-10481.50565515645768421622798758518L,35743.58467504340110547436325190138L,-66763.11648992001494874487836357925L,98019.24509345027724745382400804883L,-123900.2300418700552223197697378445L,138350.3925213396956765687904047522L,-135494.4608919256368499585812747172L,111705.6549480413473114353140036951L,-69540.02304251455234376158486985651L,22362.44583677625429392878954719123L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,long double>(long double* c)
 {
-initializer_list<double> lc={1.28345332952758638472288061054870,-4.27998592189246821868579703423822,7.59540310132982248202445534335490,-9.98511988158930735688704814103022,9.64315306442921509382222921834109,-3.73259896711843755102743414595024,-11.3877379351042301783325295897493,35.3405245192025745190283676696196,-51.3824872960459634688807488599685,38.8781588538839926989489633801774,-10.9618771956958129011353074516667,9.46855400714185898488325952178676,-32.0195893684608126926094452117956,58.5099602935733868374666854736711,-81.5126344764751339253072628503265,90.8904633696954667667601458004572,-73.4833239414790400405967856236068,20.1397550093682996091618900017761,55.0922277423269191366197018516891,-102.260776727703517546480457592070,81.8653510460428483581539615826271,-26.1790420341875388281364518924191,34.3884653395326647045295826763132,-115.615894779967058778804072514129,208.794768527332050442446429740071,-285.272151778686369266917924027362,309.624966820755386297855761414213,-245.293015237485983980680960011360,82.7160656156003978780546512910213,117.368627411720552656430239515185,-229.778103816755236050049277015067,184.536351625756306150145103173708,-61.1257417957347417038799491557245,98.1642087044809666153011777142133,-326.845019291852074844546988125066,578.987007651069395956124102015683,-765.920285624104942237323690568176,789.287057294551770149674884561639,-570.306499382819969209081268434451,127.375115412781210001811354097518,350.218080115231155203588280168738,-578.398965784749717693957375289188,446.040533667407034955589715059274,-148.340168050881728306592539339857,242.387267698402354685457149516223,-797.053187627089960370490093348008,1377.14428637131384619061017580381,-1744.67226072033933326779021593049,1664.14867571715485488836209363398,-999.371664152259082336553294386942,-109.975135997096613691374995900275,1158.48291481260314480300479308183,-1544.72402364900957359043058313676,1123.75508258960195699197431385103,-369.910829782762456155496950710708,534.715125331020604690216436688136,-1730.14242784561768581350336343365,2891.43487107758038662995214518402,-3443.39577960129826069157639209579,2883.59356477478899424394870243484,-1043.71434622715769798887599931306,-1559.52460031363836346566813882216,3697.85201817331709029131398747340,-4167.09252459750024422874650199143,2865.78391916326923340945844525493,-929.331967017572789898170185848028,1059.99977057688228527850175406768,-3352.02194887872848328960360255806,5329.35525135131998837772759463773,-5715.85605146951640499154079492212,3548.72722732407029681302069507190,1197.39105196781147592684027661500,-6993.67822250038438685361991863175,11043.3416496017877201971492641257,-11054.3183018267922725574060781839,7255.09916049836714746123437452386,-2317.88548181722775502590137011911,1852.21199940557377997990283674517,-5637.00197159849696870547564971453,8173.34866548751666571237586307839,-6841.49639920781736675770050122247,12.1626382976842242870652030827970,11586.7893354497751508898874865886,-23934.1825885079552404892451955567,30966.1760813318737265521894653051,-28538.9966541228482175531139894932,18053.7852301434253230723709446891,-5692.66002711195394365424810140268,2648.83579595469107522468053115144,-7388.81487939947103075880702225140,8206.57220819326676144272419076572,-135.922725682346782672537935672878,-19094.4939848027236223578348313847,46264.4698260124908354192614131596,-71561.7634813680661992011453304126,82345.1278495799800101519031708294,-71555.6590941751967093944774337891,43991.0849982812081634601762105666,-13719.3140295823967081982997874904,2170.03577909641615268507118864615,-3628.42589440264810496155405655121,-5845.91594461132273896165459115946,34807.8356074572550234074719325037,-85141.0796168832689768154707794604,146658.654494340123776337488942887,-196651.578540822095145685223960773,209626.444936447962791734361911676,-174478.586821245263019506660357624,104902.908767890774274461504876178,-32420.1813325788608478130673345233,-3791.10948404625746765730409545708,21198.8863785728157157296974666778,-66862.4933941434517056692975492409,153553.395660651827239907018023886,-278611.852098453149398535833869695,414080.236040913445592530257469735,-509452.248331011747473182990506778,514808.611701425689455612479338871,-414803.483334919804313513607250947,245049.163905091856060132231617549,-75169.0046370535616281162613019829};
+initializer_list<long double> lc={0.02819558060132141773794224780186331L,0.06152513640355788253257744586397903L,0.09563091819743734030415684215840192L,0.1126385764933163286498834914864007L,0.1370580741936248872232999047582915L,0.1288843733466663906704244915736841L,0.1411606417115483299984334382274074L,0.1043132342820965186786909047129294L,0.1084805353377171910934519229598302L,0.04363131115939568990400512268159155L,0.04936728920028952680516518721419214L,0.04029567295143563180647548475027691L,0.01922730753341849387015341696763359L,0.178478703392832619159097121391878L,-0.01858162566799330636923716460789416L,0.3229606920022327639055679746181875L,-0.1168066845898769165764310586998401L,0.4502817536430637767509904566179819L,-0.2686476454881386177142426730737575L,0.5350944868322459744185011894845069L,-0.3861405766854913763884836872456592L,0.3003066161922233076000300551447225L,0.2918288104969112701849560605901175L,-0.857532624853558471759866829993717L,1.886214980388444623149416549268244L,-2.698770125524573662644707174197149L,4.066035943770820282349913504418282L,-4.953915988749429876142480398256683L,6.319990984918757204278843079820025L,-6.930593124378427721401442399502334L,7.365561365836170908372702114905009L,-6.002509179240908137547311117133903L,2.648612954548768919113268484066533L,3.939405311805261193889243232189442L,-13.52784293065756418734375646801491L,26.40095320680486165851427717567642L,-40.76042885266370119995782100686626L,56.35375073652628205470410175315461L,-70.86716305320031130363523846607985L,83.34225195606742072602100809635827L,-89.41552227508823531332420652094659L,84.72019388101278434254065683935152L,-61.96732759757597894291062472879059L,23.02218155236577506353949725923863L,40.75901492266187385710811975914812L,-140.9768292462465187690638513506418L,271.3418151169506432309674050278575L,-417.024874050973276991085389635687L,565.1252468081070253372006939867059L,-697.6500948310397499452985333614458L,792.0287460283013628562539947208299L,-813.8636751192962030249006516535207L,722.6840600608015010016346026300508L,-490.0075051287717737773578550329605L,168.9493238615289437383756989169632L,298.5519714999852655626922363928437L,-1030.449031782053135639427888527994L,1970.428763163901250295827018493652L,-3002.384639786696974653123886036147L,4013.096508639307868148047299439755L,-4864.240231629842019452409062798673L,5380.800545486349795978810793378655L,-5345.017780086327481807299042262385L,4546.374063474775067084190795784545L,-2941.43804348648683237846107270491L,975.7778745070871968611528088406598L,1551.00516647787397845759317233748L,-5339.999917577633172080727100178067L,10160.36962410204858619773966328941L,-15365.98306775344229788142010297241L,20317.28036856735878350033159768971L,-24267.55705052123306536049160333147L,26326.60311396379215890483825365432L,-25517.19550804674563437596581257465L,21085.84341987297296400933264520145L,-13247.18180687316662946047752434702L,4298.45042936615050057541257722395L,5773.451723001198375548555442967742L,-19836.82110922382281606609790461902L,37596.91210428184773820503349101786L,-56525.05244760680891458881887561482L,74120.73353801770985818695771678219L,-87557.17456764160892178287033501929L,93645.49915406322074213695670171165L,-89209.67821460394784953013040205521L,72299.2794306917091905256762491762L,-44576.7217794346828224150788782247L,14271.33171651978882568777965671211L,15573.17552584413026251269405790293L,-53425.0059009481905680464350009259L,100966.3156499016365515151358140121L,-151139.8730721933876742216327061109L,196997.3724044266612234122709221234L,-230873.9936329156078926859461542695L,244485.9774194809691462243832594924L,-230176.6003108795764096881751502894L,184168.8698180701972472675635484028L,-112197.2417620913276741894654490982L,35622.86893730728281256165356688618L,30743.98660471393873791319925831652L,-105359.7761082694466713173522834061L,198731.8466881435878193833115485831L,-296625.0490463957797956256273649695L,385082.4209386570131961131100031361L,-448966.6558880320309050390322848092L,472394.0208984570659467067908574262L,-441431.3023462872867881467943044872L,350394.207444426349890847937086918L,-211910.5968972602576452384334734905L,66948.84124314673026205242853566714L,44757.330757205538173741393638303L,-153296.2602986689466517662419251953L,288846.5543778407785039788143944354L,-430449.8756971372075130640732178851L,557611.5404750081772348772309504319L,-648311.6795855895363013645246281934L,679818.0472247963727028421676639258L,-632767.1617865921613150513928170802L,500196.1321431517811170212877290781L,-301376.882451321814522094830569913L,94974.24395563609159937657075109336L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,long double>(long double* c)
 {
-initializer_list<double> lc={15089.6077411712637269975142488895,-53536.9962448724198284308071615527,104840.018462781547348036721819706,-159648.115779110749515600044623695,206416.266092993910682466902354441,240636.812280141031376886408547024,-221694.604512852050523499542549964,181871.372682065601862679548023660,-128190.789961230705865007889834257,70468.6334160615646654576884379590,-20985.8179728091629386479821537013,-235265.376984656954350963862383055,28230.9710188627028076798864952847,-98874.2923646512853511486590311750,190492.731233182078104052256756147,-285935.713149721807389532238094851,365799.749635401750401805738605998,421386.052189298637802999433702304,-386996.777548152534200202392113113,316827.275529666095806793857583104,-223020.143638842234341065056512531,122501.067276339187117666580726675,-36468.3105542663351688543163561243,-413942.100364932102776912570109661,52292.9454372233683188543258498666,-181404.117583281461136661201335661,345209.211856214789343718256790637,-512414.881607542186743159657852767,650048.796101148521280028148578376,741649.553947451000720663956016747,-679389.050542365348376025075675632,555284.598527743555179896396350405,-390466.901885730330409861250193067,214343.197882029445452989319784134,-63790.3959580075569147367791212019,-731362.613536603802204071569135921,96279.0595493672265466667908700224,-331595.471001569431723774421192094,625079.376282918736400997238882680,-919779.734334581250944395153099911,1.15906680911111420578963056418508e6,1.31218860072695799894125014795477e6,-1.19958355742390954388163889863727e6,979182.343719706841341031417535276,-687993.472264430223281691457064647,377490.508124443768159328075669239,-112318.934465189244250238135987820,-1.29801526867685687500325814339232e6,176667.476210372237170210744928684,-605131.078376183526801240654979736,1.13240317651827413623386695659344e6,-1.65491902823324577640260773488461e6,2.07443213240388174917999268372081e6,2.33399790247409471920242322273323e6,-2.13030202563331732317437379723867e6,1.73718563370674578835155434140680e6,-1.21986836032178567581898579164192e6,669099.863654972011885512037890708,-199053.374229345164874164099371301,-2.31451210878320056171036774411408e6,323688.526141194669372628160700051,-1.10404861075333826556529136651965e6,2.05435061393382689365170679251001e6,-2.98617958277422843463166408598374e6,3.72748402298736546890103297975769e6,4.17347601997897283190062117969177e6,-3.80463483665179926265865788847026e6,3.10035173783738143590473150300052e6,-2.17624598501114329338920159290354e6,1.19342856127630604641924732802731e6,-355005.196821837363139233251313260,-4.14666509404121435036989172285978e6,592937.913577826219002901289714693,-2.01583779871611734980514594560753e6,3.73442579298146991753137569162797e6,-5.40548849317012111548344069274888e6,6.72512968630238708546681463168500e6,7.50142154125735209514337989671080e6,-6.83252460415096072238680978056538e6,5.56519704922937583420712137562504e6,-3.90556535903779412010753363085849e6,2.14156821151205508031582179978465e6,-637023.570630328985256742945870523,-7.46424021681935573729225193425737e6,1.08691158952958555078838992972864e6,-3.68592382923536253479715231233254e6,6.80492317255784111657666954242044e6,-9.81761177562096121801164839405927e6,1.21830303656060615066788679852713e7,1.35509532814989528483366014342238e7,-1.23356567159237114544016062401250e7,1.00452510309818774654357948295580e7,-7.04919324158584086195962097179524e6,3.86537354895069795573845615908684e6,-1.14980368731510075882795250347902e6,-1.34982536049212982386562992437886e7,1.99503130796916227362742953344889e6,-6.75237260049050487156858673215134e6,1.24330683465505689069926351582500e7,-1.78918818746786295571712155063310e7,2.21591209757328536627495098489617e7,2.45977340807546992095063027236574e7,-2.23852172645236225301885337663312e7,1.82283647034072501129245484467366e7,-1.27927556566330915026709524155804e7,7.01553026225615558725419530822330e6,-2.08700027699722278076129564275001e6,-2.45196218826693977177235201805281e7,3.66820807125670614428577271924756e6,-1.23968295392537683567812659004069e7,2.27795837138188649383712588249625e7,-3.27176607045688469710918700238267e7,4.04619523742295002719107271305204e7,4.48570675947578613566743085665823e7,-4.08205367204375772041106130430976e7,3.32455559164270620608099662348981e7,-2.33369670029808216249566460816808e7,1.28003396087192342794296941461207e7,-3.80831010819175456620149416980085e6,-4.47324030941647081814208342856777e7,6.75806427148100004564895806218890e6,-2.28131018672245712597686860432526e7,4.18551735986358172923218517609432e7,-6.00291548365117788746480576164039e7,7.41623253858293769372819976902042e7,8.21651942034578271131653018026574e7,-7.47851670328275326650352087627687e7,6.09273182190745587993423504536959e7,-4.27827180431680426865683684961523e7,2.34724629113263035968975641232769e7,-6.98449874558103115114829740774126e6,-8.19458979639261655645198582173746e7,1.24774865770276099141477113854943e7,-4.20842554701771512598430774577837e7,7.71243003396692450092868318410581e7,-1.10500370394579456660422390226123e8,1.36428323355684144407955941895708e8,1.51140394155561773061306624280383e8,-1.37618632140711930567817502465051e8,1.12171290232194631794338702852702e8,-7.88005368711531526217271002889828e7,4.32475425636328033835857959818826e7,-1.28711893214967941379531241294378e7,-1.50714352932616521810930426075388e8};
+initializer_list<long double> lc={0.02332815669561887755223991028305557L,0.05437837438630378031749457987945162L,0.07825351899338387099801279798799739L,0.1044265200897934161832414514394115L,0.1126873542696533936273514497979331L,0.1176094557209775203099905214241196L,0.1254493405129252219683314647560122L,0.0908550857590878789696237550135725L,0.09324220667214400644714144066010947L,0.03712721536394142982427048196380207L,0.04186027230449256767339436944860216L,0.1300021821083184107836332322712924L,0.01446776920624395510872621903131491L,0.0853674131059743827127190050846357L,0.01749842057695189050716373279929337L,0.2007915258452814280133286563822154L,-0.02411305629227935337593461758438015L,-0.1117924563189080307518659662421316L,0.4054750066539532071861469034523987L,-0.2398853830313023060804728438254843L,0.4659467745099213760583591290497824L,-0.3344612879369412431665570706913326L,0.2572914765953476029312689576788564L,0.3113551689005196625178849618052838L,-0.1790614907316118778507227896486108L,0.7608070339099480365809134302324022L,-1.301359547927245235648109714276446L,2.279024464756372217776792732430119L,-2.945118406083428319486691680768251L,-4.826146948795554193195240862679514L,5.951000904440132439094319368542942L,-6.394604337455275256948782340955142L,6.673413896213997697284222536140393L,-5.376289880188806551101055254325843L,2.347649644167647978828763796566138L,4.125733330596670721147143862135404L,-3.234677760081168989041100626568059L,11.39732392991338856884522108676389L,-21.96618202005344898392856467274853L,34.58311955793665061086941570872545L,-47.80927203227513089116158094030565L,-74.14202224262717531201647717792108L,84.36080812766514869564551968088382L,-88.3741489189486123006572362734107L,82.16110400045867785978465411217679L,-59.23547944978514773882352543711434L,21.77713127346409906008987776618655L,61.6886365571894106967454455638616L,-38.03906453345628320303151283085988L,132.2169951913786959703103158824205L,-255.4720846072124629945438564612875L,396.6197782281886127043742725568395L,-544.575355804012361692025395499425L,-810.2824581218304982572084979373191L,888.7774139667566764138622443201801L,-889.7687229134692346414548481639403L,773.9256995367881148125139900152368L,-516.4091280081139025613004060751269L,176.1661317434856118984182642652159L,688.156879571997941453209084159744L,-1985.430119092235978292795825846386L,6861.398666391749203068271367304135L,-13149.16891430675963252841251307295L,20123.19753575986027565986623897871L,-27102.36171275851018257801044100098L,-37822.83399370895487827783263454018L,39505.52193057797933359418122614643L,-37169.80642702355963356453336813497L,29994.77162470568728534845171954865L,-18507.26978956449963886827282769431L,5938.724175242322948617666895060389L,33314.8196404811766322791563839362L,-8955.637810220677035100793356213745L,30891.77210063864190016098487238488L,-58997.6309018638181932079050419126L,89815.09246454563800718440983025688L,-120080.3633198584906293345700156082L,-163844.5686133115036444560128285363L,168434.0162626915281385675713041052L,-155503.7419253805187754849290275413L,122904.1102468997787366239583347348L,-74355.17118694940452363566750005427L,23532.12667524017903675918385692474L,146161.6799233181460720206459172282L,-29855.93464472950040482572190666745L,102834.1602341984401693081619098398L,-195860.8554638306538756960387419774L,296945.1405235221661087971143409275L,-394755.9422693142241472184702802461L,-529546.5096617205618373098945137884L,538099.2821860706465983456403853756L,-490172.8482306078666529273598302413L,381941.2928708751995388374964170826L,-228084.4274428662477645495776952587L,71549.91969810311657974056257352944L,476908.5158592766289962217356926338L,-74232.87302330908736773097855142451L,255403.2768665118236721380526355815L,-485464.9618993956579301591826387523L,733781.4544593258486076423276518731L,-971423.297010108076032748651120518L,-1287287.885062913873068220914283209L,1297474.762080554143121763847180111L,-1171078.72650752114524044419771868L,903838.705122243398431530833614311L,-535173.0778374137428816873489354808L,166934.8950448893632096571918018656L,1167229.612718474102630602538811239L,-138729.6498462455889939229009824966L,476954.4324017848331828178753366385L,-905346.0579490974462800733847522875L,1365638.696820855950157551956125761L,-1802880.078763367778805901077877737L,-2369912.453141226015954540538095635L,2376087.905305829803193386392050942L,-2132025.087727067887314373497054418L,1635648.471441947648332078326482355L,-963392.4228561556251884946879850577L,299468.2158129353783495389250295336L,2158489.980558434914559360950955334L,-196015.2270937149129246672608909406L,673629.2053457768367663304523322638L,-1277715.819897343022322778178698495L,1925182.113057546416334392199193534L,-2537730.71976783532958444800910866L,-3321434.609849504432662916995867761L,3320732.910126768834073286939210454L,-2970384.395052061659638230584435877L,2271672.562832428090631082901274774L,-1334354.505866478829587058189425702L,414041.3201839214495001640659545025L,3032379.156760813682774468005736452L,-322.3557199112483249117938056085393L,1116.614354787095348592064973527801L,-2148.651170490450042482613430843868L,3309.531147301084321550019154115545L,-4497.759677238787097831549673333051L,-6460.124330747504052868128584082937L,6892.32296221338715194385568670027L,-6657.535150659601664883419782428326L,5538.007161042436432910699761738998L,-3522.176437980578336857868651550158L,1155.815833139638517887049423569532L,5597.748411840272012493948707510001L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,long double>(long double* c)
 {
-initializer_list<double> lc={6.18176128296585651431497281229868,-21.4088030061599777549484032729396,41.2032239687845596694728666761738,-63.4925321577773207362388980947601,86.3571897810684871346136666507078,-107.376323509645066107188109699651,122.748985604790250260686850137561,-125.821025933731221721350641927848,106.229079052892702036295501226120,-57.7526517733357370831992229009417,2.80796017296110886466495492110461,18.1708135972188138509595955089030,-6.83976860739174900281954676113182,29.3715050623387684470027572718344,-102.458687630185083384937249125815,199.730079683471677440457023026257,-313.287981523747843967636071957559,435.283609024639885128291397773519,-553.316659533304449903135899854425,644.617014804846142554402250378795,-671.512946000560933525303240085486,592.414474957434794276964958785331,-405.397306014535834138580289873806,192.298188003645367255421230838895,-57.7355397268278415849095543304905,10.5021886373958117243017056266526,109.796819222652565509932956362379,-383.654439845620646074332141981135,749.646798473143407540220254254825,-1177.90902593643831084103945873768,1634.98888025749766493500806048144,-2065.08918373553772654497109080839,2373.27152365996178647401426575764,-2428.28240821921111495562837070537,2125.01151597490212799465359920317,-1509.14992575826129732744852569438,827.974187706390957432807178377929,-338.771145183342314667239495626082,82.5077078986521267258588636215613,364.401954968637154218231122282557,-1271.80909826366700920727229954761,2478.21640893483550305152313432620,-3872.71611269922261506000245035004,5323.59355927527735002487662283664,-6621.91504358561600654948777304339,7452.81646658216690870427715056826,-7451.89638293175478476430243125628,6417.05041467219184434157550676166,-4587.76010387560030270007882856004,2635.93729272135220925235299737903,-1166.60756701658194498885644215174,300.946214002136633333238429609403,1110.79189233423138258940385846226,-3866.30184334451451028218878622838,7493.29352088790168951633861250514,-11606.4586260758519358362946969648,15745.0210291829313373269832896067,-19234.1396904612381458065558061619,21174.1547851162015706846519838163,-20690.3178434443890340265256211797,17506.3965182655434541645882066747,-12473.8653002940024272424737056761,7292.45935786014518749560281023128,-3328.68586831762129404068217614148,877.860102844354449419191284854018,3161.02032177507813559289926500141,-10964.3493824537437963116181308778,21110.1464575028362714434945330750,-32364.1647395409989947397328442650,43278.2882637445567887630809913092,-51901.9534222176241992660239284948,55922.2707454204850212995964618209,-53464.3405854061391824806188529721,44445.0167831373896569395467731564,-31415.5750374773712997341616629642,18452.4160238141046915712281190431,-8528.39532118778753390726671880366,2269.79462604693770452027151439691,8490.00766350392082721256189847668,-29336.8868750642338453783871334953,56085.2395004147165809155544548837,-85072.1387734536792179399167913700,112128.402231602625940668427631900,-132074.219978286754622374215572421,139424.996683648068971573079965284,-130566.051910501593915892187690820,106640.585242934873437156592982030,-74553.3496963915032333254349411291,43673.3110434210987032902160202129,-20238.3420851491310454964644048446,5398.59790906169474154003242121813,21701.0715114788116311134877578281,-74694.6450482564853545203889477978,141774.993514310743072441109354167,-212768.931786630469289890740130292,276492.598490690282184619091392570,-320079.347134807841919887159267228,331357.217692461408619507753960314,-304161.301074597363070937350937284,243983.247241247347372713149815408,-168255.310189957191787398613371065,97756.3411377407112798610511957141,-45106.1141708361140432033726396208,12000.3129480294247063445069704261,53134.4532335960797141761792256160,-182171.241919160152494634331286410,343302.081579090130369562412205927,-509820.807280470630595635889101318,653408.896059735369290177128706426,-743800.778542937348719704076921395,755513.715009430706290807095803861,-679849.177079528331636172642835853,535020.381472694576630315623257823,-362827.156967477125520238050467350,207941.321011689110505169658521633,-94917.9017130505049146905651335487,25066.3344108193497365611609030378,125260.221645464650989303276511887,-427775.383558202621694128131288603,800421.970057918868148462675466045,-1.17637400052070059923049399661480e6,1.48728940126686937453626759788493e6,-1.66518292700380066818988699038920e6,1.65958903838150501805882031164568e6,-1.46301936029668083674363423236896e6,1.12727794170133096268629200010303e6,-748623.139641324528492550010613683,420421.710974803979726496073276615,-188363.541184953027412329491376818,49078.1763737082519043308250946432,285435.621256880168097672100240963,-970970.137533427296022496082986284,1.80390490931779843101413877277024e6,-2.62377417868842167164438242346562e6,3.27225391169729268493759393897235e6,-3.60268613960207330448571494256314e6,3.52078183805347001471628905531302e6,-3.03572068995387635182045046975868e6,2.28233082017965587679532530032986e6,-1.47506860792357783427356743267697e6,803962.169860904652893185302721120,-349385.312718931168465820607502546,88935.8951921271130894231838923503,630588.341479330296000378095066653,-2.13655549975080224050255855594220e6,3.94075433118392033309939261753250e6,-5.67147201365465580458931512697987e6,6.97477615211067395743818446305069e6,-7.54579103786820762601810551614704e6,7.22003332146390328825210208677094e6,-6.07070801759000314929402462067901e6,4.42837746844219411181447561886714e6,-2.75764092177604552736122791281093e6,1.43532802815457896529935265802916e6,-591985.665722056446007861319541722,144295.605122199065698044194312577,1.35339451820168590660471632236399e6,-4.56673844274125271219955966836727e6,8.36015671940810432420536505632625e6,-1.18996320457077296915500087428412e7,1.44187945516331407005332856284268e7,-1.53059464351299216546769646903615e7,1.43000159163783794479236190271853e7,-1.16657697633335144424944087919689e7,8.17886687936224856409502137761671e6,-4.82152568873485756279140058758120e6,2.32135807933757355274280830023582e6,-863429.147652855199807858655629008,190454.944196912004157059317778034};
+initializer_list<long double> lc={0.02043314564395230890619980615339753L,0.04539141101960506451329405405215942L,0.07075203982951664778204600767442234L,0.08697930832413946467759680823218271L,0.1068958575655378236151850883810066L,0.1091502505013242409744354173621816L,0.1213834323729428069120432422489123L,0.1067880838340447455899594021218111L,0.1116751088925607817586561830794796L,0.07964815012284395825182240489777904L,0.08090791801148170890301417362909721L,0.03196414276022623140484797212552828L,0.03593962376253014197448471563848742L,0.02705973546125218336937329970338904L,0.02220691606742952972311628040920028L,0.1162345535837019870553817835796394L,0.01477309942069831764332856477664779L,0.2095251928491170418796775964030643L,-0.02712873531369438905036844429929981L,0.2942019004032911389861435382189083L,-0.1051421587797457855772607341845453L,0.3646812060065380248400894996294975L,-0.2144141733194794745026440836527829L,0.4084915353233824235282219819075045L,-0.2920103332391643241153785963267802L,0.2227220619251843436170453955851974L,0.1776624251851340234155839705434556L,-0.5038741929042536160518480313230212L,1.145168043816696891616667820129308L,-1.610904100370667762097640803744583L,2.503677319211917291660519594535841L,-3.041601465306033043706804319714136L,4.05776251262320347573885453466574L,-4.612147463479227897442267530310713L,5.546278520739122855715634223346893L,-5.868718810506455333986850047323635L,6.039408101848535083552766429310054L,-4.82192100379454007809141604906681L,2.088421067569913153279696964160178L,2.726299079076174331040094354709678L,-9.388748000013838314476716205051389L,18.45613824257572776410873606686946L,-28.79714336843498905189005016968932L,40.52953449693404178110537162922007L,-52.3712608846989261692550153065657L,64.51942628173769441330490669871955L,-75.09123252065055835785028166848413L,83.38346126608124997464169260404573L,-85.78113890398301632944210357959231L,78.59051186455946835085703477973928L,-56.02542326943083386975674633005961L,20.42840104652763536729108482264094L,34.80896763923579496893996790583281L,-120.9892682522310012876008354346851L,235.0010215808310251314499121147845L,-366.6980993032411533445732479776873L,508.7785557408868924028399435713895L,-651.8936347971982054138466277295182L,785.9739037659963190786333941145862L,-894.7808284658720487551733728127788L,956.7422774345020952179160359426171L,-938.9581125609485376140258120399241L,803.7363408793728932227458713020743L,-529.6263424505425649129549845742733L,179.1809724136902678792107991915185L,333.0279230843738938450851174699076L,-1156.141447568140473438925056878031L,2235.542209604541385917366098167892L,-3469.173016842149293655186330912471L,4770.303284755696084639128276069226L,-6042.109944304809531629732722021085L,7166.192246625804848375374231294414L,-7984.820846300851648154685979996683L,8292.717599605544178983998143633212L,-7840.7132005912181719480466456429L,6410.511908540859343017485090922927L,-4023.052107243231674594954534961917L,1309.100161475603491246061548794959L,2372.65957622509321195528330422742L,-8222.133783789853400862321224552828L,15841.712429931736260956122206046L,-24452.90267775241366514385296862032L,33368.45996056132508757547551543916L,-41833.24321095967070911179613200055L,48941.66059415110364161313212262263L,-53573.13942599273633620939128928553L,54393.60750963592673893531451135325L,-50026.64326343507798544977634869984L,39634.8427866821358663933807346071L,-24115.38813825259804143834425672461L,7672.007642995029330786773825588115L,12634.34114797719709991823702687758L,-43711.79481198640290003100349038867L,83964.94405875456568097369738735049L,-129013.5692329273669321908287938762L,174927.5252176863617355274396342846L,-217437.198733050277930807656821735L,251577.951816240041130517450202238L,-271546.6679124279935716204100863503L,270991.7017645955299873587080673037L,-244254.8869639250404662505073745463L,189344.9528878890003751929761517123L,-112888.6066115238196346139823560897L,35412.92260185618299342291321728014L,50624.16277089203739115096376053025L,-174911.510046350626838238173613154L,335145.1534723220534226566575558608L,-513024.2369000111471112887406304202L,691998.4743397366125862138958259887L,-854300.7998448976961612812806028834L,979853.3770788889006751106918441757L,-1046266.354370207341267391862641301L,1030739.33069097194037689808319671L,-915555.4338920349714623358284797418L,699014.8384342820374947033614090891L,-411103.5247352774814017052444292091L,127788.2472480612005189339157607802L,153812.7339178201027086889327280033L,-530870.4836059804593973959639799186L,1015189.615422070239622132145932085L,-1549424.19806930973926550686141655L,2081522.586582860658567605371382068L,-2556217.097356600647099983462762535L,2912514.138717596066714572148235854L,-3084914.272645913426186869775617651L,3010550.901290086791041379494777708L,-2646313.239392303964275864660982056L,1999129.378576720288360468316106528L,-1164878.17122349093960509030328973L,359899.9289611147489859749408784965L,356980.4760012642483282451846567687L,-1231100.976913961176904780516020834L,2350792.214626260968208359637325114L,-3580023.77729891059449973603753757L,4795134.322495876489650581455148686L,-5865997.533081947428029735595952875L,6651592.671231656829954285364906859L,-7004743.806346515096149849085067363L,6790518.256525431514172801574387913L,-5925873.73590200561678565931478011L,4444484.888824084150215105623220193L,-2573775.528308876223884809557875174L,792014.4289366873023801476646916365L,636790.31686066233703639058090665L,-2194876.170138699386297698453068059L,4186954.935087495589933057333791642L,-6366887.414542312035281014781059827L,8510799.339042367770938352581358673L,-10384624.57206693586533580937652007L,11737862.11893998881972050397432789L,-12314148.9506376535707129066268403L,11885865.64393850477852537425869184L,-10324154.30177573078985971432577556L,7707827.92757400373910170254354468L,-4446204.770800683646695394861707549L,1364797.857318191870416139755623919L,877114.7937512886797261911062077047L,-3022322.507240499675180613546945638L,5762252.967261389662744982238066629L,-8755276.18843926275494863793773519L,11690627.81923022679166591027031048L,-14244575.34193339465072941810987134L,16073051.96876282205488435625087567L,-16827728.74041011234900689326945352L,16204836.89222570450409984729982342L,-14040836.13976114160649377433501547L,10457334.95882650842487450399397775L,-6019951.728902036962201190854906917L,1845473.238720035239858811631081142L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,long double>(long double* c)
 {
-initializer_list<double> lc={-10.2910491201745120760288238798559,35.6649932160325766216087854954939,-68.7690593391070322239773060026256,106.433249186057306353358226526756,-146.143486192263888634426069128872,185.396425039936284368298552881784,-221.090120196881314572561012603924,248.301799929366066500321686931137,-257.919153498239416344068534306548,234.545421862513355709039423111380,-165.851313176512109847948190194499,75.7307225154488337566831859905406,-17.8050930492445916823977585640482,2.80352091872003590267703510993137,-37.8146707034560216471931849212323,132.338523121893426929513326063090,-259.733684784192489963103004338320,412.461025995191069984437986601516,-585.586404894057694504223037784489,772.931726435990663436364108569125,-961.633253188619398000330484798036,1122.46223959614404495430285323460,-1199.57644091701316877767462604961,1121.31552041206719751305812266943,-861.453302899804054280584787445832,512.670772995702358558819040712771,-226.530722086344361000602291277326,58.6555525288880038328989934589698,-127.533527567558068145717068367897,449.176493725425051126095582527733,-891.308807027209532727550733997805,1436.18387126051936278669882594828,-2072.38128909747376426390596998835,2776.08252331922462692295432742709,-3485.35745561204618618254409204422,4067.17411303625056526637777473430,-4307.61478053183418376256732189741,3993.98336654513992651988387713234,-3110.01615947563108468749394495589,1957.86729941395747808229622248384,-943.914202007712387367735753316161,257.998792588929115675522030097295,-419.312810579804814593111085030069,1480.64665274544785401063865373233,-2949.65192304157869315077529318076,4771.86604845340577858550851665759,-6900.28250086299159659038787191180,9223.25105430236863196001650975965,-11480.0053489859775580134649227593,13188.4334419175073154991183962936,-13696.0362204070361748938844096057,12495.2164277683483114963516278659,-9710.66891203171241983336541072945,6230.48028130710408760732835157589,-3097.47691771321460217772884973423,863.797656097112537509597933351987,-1339.00310263941210727628402515108,4725.62434280184697359962248989085,-9399.29190846967954289849770048559,15151.2885643264611953099209732721,-21758.1474421982417075196197877979,28749.9844066859916243382265333524,-35191.1432420428247004905999911883,39587.7822848725395283522510871240,-40213.9972170044055749449035953399,36047.9663581223029295847100275185,-27821.6303942169349063666030589004,17963.3276835691916776106000917608,-9049.83293363325887593168958371618,2547.27955263636234937883135119179,-4106.28213009044319256162406732297,14457.1806257640591708874009351260,-28619.9664553266956805445193727088,45782.1593799479931736257968893111,-65007.3010965651290659364181592041,84584.1318258387495427664530270083,-101556.379215595866583452704190150,111783.504409719790475528884473014,-111149.978578375267179977880240155,97965.4592767790556120829488690679,-74967.7840375493932424312521951136,48442.8287714816997597629279454646,-24548.5740092550839834425666630359,6941.17487665328518501342424208789,-12028.9475136183700422887105556397,42212.8729024573739880055814938479,-83056.6348642026850456229409460827,131630.981157696759461999979766330,-184528.268990152725810908148091643,236213.661496403938985015239723131,-278208.662783639132635278255608910,299959.283374362935664645007412836,-292452.132584528075465530561074740,253777.860221333380873926291944072,-192484.901618541117920224189078120,124147.105816814914938433067311885,-63045.1576478192448136476814294152,17863.0908913948911992358100505272,-33665.5384543048312158658979689882,117722.830992710433456361987775251,-230120.732669742193398882220205942,361194.394175960216709447862988387,-499866.140965830303157914143308898,629804.977509051486575684121132708,-728450.831141326344952439238089456,770630.830482684409308943600205497,-738097.963772351945331989238733563,631449.719276302856561767380285968,-474738.473819861987392021792985887,305173.151354712715846369603499371,-154973.169073915456573066453409347,43937.0781309011444354138558335579,-90284.1418115437981418277820443592,314589.040108267087769676009874315,-610987.121512695244439409013297854,949996.932244973229010097897966123,-1.29861047556820315466439475105577e6,1.61197599678716421893265444102803e6,-1.83354094495486125241324005652777e6,1.90649654385793121049897216844349e6,-1.79686040748350440382596650597093e6,1.51730774721391092423589130639468e6,-1.13093026467387249273443478671252e6,723914.839572900093906717352267418,-367116.504437970604592569191139868,104048.878817886597186834222827145,-232926.029018366388565809734235496,808835.157758221436160756691829774,-1.56119024341736888582559084358226e6,2.40577130399186894658932425730686e6,-3.25071700325562888918646476931183e6,3.97970003137809377640153646512347e6,-4.45771966992559199321102923855428e6,4.56264228605076153961492904275138e6,-4.23751517982801615962226426767256e6,3.53507687500670873037895259326751e6,-2.61249724601737300487201496509078e6,1.66408326422924393939065554025013e6,-841917.241591225623948437101112553,238373.801712336430673073747044597,-580415.196636564937306662284442039,2.00891680998371169713254683946748e6,-3.85483132903219786047409861218021e6,5.89031655586515519148797316502053e6,-7.87335614627836301906415308516156e6,9.51604149744950038420167367820956e6,-1.05091077567252059187221590618153e7,1.06015075772588193988559028080866e7,-9.71276921979597256650704795085019e6,8.00992257767088472442861387877500e6,-5.86905598806086503622814728861305e6,3.71779752462101482920853222180608e6,-1.87497757673199836693165961315188e6,530010.768419340827604867878397507,-1.40203163101291605392867474300610e6,4.83765274514607714980715759916191e6,-9.23131935935327764401527248252587e6,1.39941044744811408027984866208683e7,-1.85164566363311182088679778238971e7,2.21131597377726123494265718386738e7,-2.41005827092396702341742281030130e7,2.39850437755133928084379744537103e7,-2.16930080735466903871415172982895e7,1.76906989955309460357212804375212e7,-1.28491092345788721286190371644545e7,8.08895574959350190169803914191994e6,-4.06315688352746404051763763497436e6,1.14604914000845661398108164616212e6,-3.29346623196939398018625123624224e6,1.13305077553145677347716393847357e7,-2.15073328660107436862470006818288e7,3.23593692865303477700182478094103e7,-4.24082436774446028030330824742114e7,5.00767803534740523999923169338623e7,-5.39011673015979195508110748948686e7,5.29552526505326896461320029428955e7,-4.73016933034785293944500230069160e7,3.81462894139935775945088491313633e7,-2.74516719793150249090771918397724e7,1.71603295062375451121376322393359e7,-8.57752261381901325531203805034596e6,2.41256909162304025762132772966568e6,-7.54380568648201912072365117238206e6,2.58797849901037752176758863697480e7,-4.88772258174120580338129624538280e7,7.30129212398209138308048620758100e7,-9.48151345262370629077894301926843e7,1.10757923301769417971803390185646e8,-1.17797404982158366129217538237773e8,1.14289160557425782185515366808272e8,-1.00833420853638306926940199787296e8,8.03890783601721467158433650741888e7,-5.72755599376425278206288460340491e7,3.55128937809771679241185184440344e7,-1.76442278996533607623199248826080e7,4.94501755155542945215632697547358e6};
+initializer_list<long double> lc={0.0174158699793956314306931722758618L,0.04058282231352952271106871407718727L,0.0597693286281956389756963248928893L,0.08017724935134057878934862230111731L,0.09052138611022831907050162814214781L,0.1055995571265051942974357890375806L,0.1037987656258852658472500506626802L,0.1123855270424571734056382272860324L,0.09681939516919770221340892397290615L,0.09971757788520830365995758805677039L,0.07027281636152926594267376651765239L,0.07080872220295019100678922359337689L,0.02780013938923800169387173191055404L,0.03118893846593304153486760392121702L,0.01236674076587615159866083972993065L,0.05825253447138952424760214810784169L,0.02509067966707799136923159587775317L,0.1352647962135012011272210346784371L,0.01216327189762905536766417358976763L,0.2097490238067532579237202973288972L,-0.02844250018179548598396490663043345L,0.274874637121962144102321330815785L,-0.09792398672146627696725040366643096L,0.3283043543729044761266913709881646L,-0.1921150691647685828442361526423322L,0.3604745358568470768079396295684763L,-0.2568412572164246957126260612403065L,0.1945647972787274041688295338055126L,-0.1061553799540164265565487818347913L,0.4725255706655787944615746952068601L,-0.7861008453646651843806426128596402L,1.419227813810245624902229613309125L,-1.804569573881671136568168988409057L,2.60622518023725586553165951998857L,-3.038309243278962179318645493889903L,3.914565753478899989908840241505443L,-4.355946929617144297085494154422146L,5.139070657576398249943033621366711L,-5.373205250267966975325140401493666L,5.468828674392323497922560046749361L,-4.335122116500958711209391108044742L,1.865365031169800391179236431502679L,-2.229986944421428768590200841276537L,7.884321938294315290705396466526695L,-15.25614575282471437356298406117503L,24.21679697528617117255318048243624L,-33.84561424269926418891943367476694L,44.47160414951949628662025427264082L,-54.91841083617566134989541460501847L,65.46377331677822628820822521076062L,-74.39551057831134889160172115641634L,81.08936316431834055065908334830882L,-82.25056693289277363842287743228902L,74.48891694835264455636324360066778L,-52.62564740572753693121451665006997L,19.06345974809769126202375513816167L,-31.29604467677775919715724193016715L,109.1430503495459418295671859780541L,-212.2973705265970250349305177475206L,333.0883391428208067603290856548284L,-464.8090750474936752140366785978226L,601.9085680776695670027779800830435L,-736.1413917686795550109475702751154L,858.2765620070478436983345380142718L,-952.896613978757508067888350283951L,999.1822590347727152154401675094751L,-965.4917336158998733774417500879104L,816.0390293635807988477988522879581L,-532.3955918417362633476219904804928L,178.9323891623249088497936445160735L,-332.6563678777737914329508172871551L,1157.170236508629926834781739445832L,-2245.015840931307216841052765208623L,3503.538733768951321875533682712083L,-4857.143285982302954463565580063603L,6228.218875137458146838039584205111L,-7522.349212802909496011785539297989L,8619.151176159388386189693144381467L,-9355.270616073148546995601514361491L,9517.132417483332916593524985734459L,-8848.885882133861105057567307493323L,7136.481641429280792058204181431543L,-4431.407314487273434834476428327379L,1432.375883617071110367004798216985L,-2687.503637034633410258656695685689L,9333.066050922091897617781395645132L,-18054.30868460269255391427499419675L,28047.0547398697687537445181643623L,-38638.69651300710700575394346576928L,49121.90795351995360463082480476931L,-58663.55738347215919759795862735142L,66233.60783584451974257469098274136L,-70545.93935359231943739834736968042L,70080.00157814029385932648884484671L,-63314.0342447458330427706009781713L,49438.24401233823669145818506212402L,-29748.41664167257352508496527891572L,9400.02026001809995159522503295665L,-16534.05320705528118626719671081891L,57336.77316110384009288563901051224L,-110623.8351520701371796973784173362L,171168.4717092788807073334512807185L,-234508.1597766613749324814685342695L,295945.0404602954166901654795672248L,-350072.8141383241457109472536786745L,390474.4355069826460774375625839923L,-409651.3555243833577127893637738693L,399554.8081757504444980102113755129L,-353417.5088846904175014867217893916L,269808.986375708243720728413424706L,-159017.7135245861304759794756442756L,49538.47884612572658491913442829384L,-77819.18848955211207800930272144194L,269532.5463912866053042241193931986L,-518861.0689700216924070484682065962L,800127.7098322420637398241683025592L,-1091122.271952557973443555260529323L,1368575.163725558595100724750643699L,-1606282.41764199835892387477642803L,1774279.680600927115330127211095383L,-1839476.995205909916426654501089146L,1769301.66364166639927104921815251L,-1540841.766771997126273995754470832L,1157719.078147084213409247204739912L,-672767.8923463905216222785495348408L,207637.4185958471729651001584888606L,-281930.1531028525296542641681395457L,975504.6971593469323361033692694741L,-1874416.351057100033462498341159322L,2882527.178431991435820088585251658L,-3916022.092798204807148394422327568L,4887655.218286550020885348716963682L,-5701048.398504338489058142791054621L,6249426.71608817574909572326924519L,-6420324.862523831080012001734045089L,6111088.550479818821402156668899372L,-5261773.843100049357593649673072428L,3908874.333994534828210421687354252L,-2249422.892534027665910995099062136L,689863.6568043043541671499145224412L,-791349.5583894944582711797842356419L,2735963.315807425406159784913699925L,-5249430.035043682218728904769081011L,8055162.723152889622141657008198571L,-10910904.21904196399393991911183688L,13566083.6412171030393510788623453L,-15748276.97784645810611988875394502L,17163279.45776778593116245651562743L,-17512806.47311923203898580047440812L,16541377.25542106451453176833802081L,-14125918.36084694316821637602138386L,10409997.62059091268885835030650364L,-5950098.439174270212605317818933206L,1816921.893151315400505025863437973L,-1731324.860429420317909814880524551L,5982207.195661545254227858230443663L,-11465391.8904275045045918802302759L,17564950.68624261834106279753944835L,-23739964.97303148412792099393448245L,29433952.71000535843686495333906689L,-34049285.12082825960144329881557709L,36952927.35726218215322036767294651L,-37521460.38225836785737757705868776L,35247245.85803722680574789910833645L,-29927909.91895311365186077457983011L,21933544.3628817482778256134417438L,-12478982.72755358945773380123034946L,3799493.61699171778477114799263903L,-2967133.393331606059847820594478551L,10248109.20588680529138214915697946L,-19626772.48801187358227561184226322L,30035138.66154234667863147853043541L,-40533925.76174539262226058587509772L,50160605.57113290864916627835054494L,-57890241.57808950377985357853750922L,62651511.35750909224238124051423698L,-63410342.56487497532501709177447233L,59354599.94564990611905622421519158L,-50209853.74610420402433376557842549L,36667341.45389995680904588419252432L,-20800548.91050508988985261744900751L,6321514.211259071325564575359536915L,-3998160.307489448944142308861099633L,13806070.94834698614519810513946861L,-26430074.47127802128065079264778021L,40421983.37813011164632327469427755L,-54507267.15965697345034148581030095L,67382768.02625782853732895767262475L,-77667375.83988794848885121659919048L,83928036.60565442962194989194358804L,-84796854.56020574398220294051281245L,79221366.54992278187009129157567246L,-66882890.54525299523644524553422555L,48751518.1781504186879217041194552L,-27612846.8684577618293983361620206L,8383728.058908241051625270403141908L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,long double>(long double* c)
 {
-initializer_list<double> lc={-680785.069834758720415639474411158,2.38745017514326997821156485019113e6,-4.65242845102783325191599249552755e6,7.18772824115353931241763434588054e6,-9.66226249821410824458253083175810e6,1.17462296405987632516973122991197e7,1.37789899126168106269697181462184e7,-1.34934014106405088952114122707755e7,1.23525684346135037690721109504686e7,-1.04841651035296343301874978543171e7,8.09699168274748848706416690423373e6,-5.46603488809294897645502880592397e6,2.92027667637585868975528360430087e6,-856461.606004360269012387093190528,-1.31746947299013404376500165192919e7,-1.22718981403933245715089982849120e6,4.27596204942486666535054372202260e6,-8.25835967922397073027526852596492e6,1.26456344181557269130226932879279e7,-1.68734305251226192933017134229468e7,2.03976946972231258538251173123933e7,2.37606567237999486999063094555656e7,-2.32190704551220823157248587308745e7,2.12233017647467535144555313817502e7,-1.79929699448666385154758595826655e7,1.38848763613619443944534584549430e7,-9.36798691491976520179348825327132e6,5.00310847035691450118563647942716e6,-1.46703443282799299851273296871457e6,-2.27851922129251155872711371292940e7,-2.20822537577858885746591192674016e6,7.65653501604682955348130648570056e6,-1.46857701306731479110850533658352e7,2.23316166407327496307055988092532e7,-2.96228814970117506055545468178798e7,3.56491240969829818148060474619749e7,4.12916377298028744429132055821708e7,-4.02807386079817808432187736501364e7,3.67718964804530498872558942596485e7,-3.11460998432956095633038805325138e7,2.40188515835349572884236696670138e7,-1.61977145818397950280456999866121e7,8.64801332397198536611214972369892e6,-2.53540435929255628649979439096504e6,-3.96908401362790075248018816968537e7,-3.97468522270383835376285711756371e6,1.37295776593579597478309018469417e7,-2.61941612296241967339794595049323e7,3.96153134130023850589737271507331e7,-5.23058887064547926249941927014087e7,6.27209757323754209256444316621020e7,7.23171814515327168477259866243440e7,-7.04474715657072835932427386172234e7,6.42441952513842622155014132252580e7,-5.43738993333094748707343041376327e7,4.19082289480392299146804519405050e7,-2.82509770902523654710545515199781e7,1.50795369368951004230778543672086e7,-4.42039985884800813428656347880730e6,-6.96475261296290902737270102419868e7,-7.16688109722111121050255829396986e6,2.46847442017865582130097090762103e7,-4.69010233458148165339409757566873e7,7.06308690063659824819999617115105e7,-9.29163426391210714730876980233316e7,1.11100892421312331071205416347470e8,1.27630876996854387000059043484699e8,-1.24189133786089696397270357348326e8,1.13157710655561305435949814131901e8,-9.57125114822049662479908807633777e7,7.37360924462833895651264583823883e7,-4.96908620795507845441410923323230e7,2.65180898213500196656557678134748e7,-7.77264307564290584493625131034868e6,-1.23109877837792356270281881636252e8,-1.29591061971905330596309120020440e7,4.45356437203252486057225148773231e7,-8.43479458028187792882790810157900e7,1.26604525893048729549081093965412e8,-1.66073452145038327117102407441377e8,1.98129438142640549942608287778503e8,2.26942726632100691293199612103459e8,-2.20618328876755881671010876290757e8,2.00881957478558658574691766561974e8,-1.69824958433226615377492987087627e8,1.30782642203381553665045637544399e8,-8.81115996928667444443768343901454e7,4.70138545754922394471266501202381e7,-1.37788762614802068238751277803663e7,-2.19176521063409338771110792319522e8,-2.35147268966403254388549242444240e7,8.06734675730673144655148223649928e7,-1.52414826809378248276023061870669e8,2.28184490215900973866004753357739e8,-2.98650369871108429028177226743636e8,3.55666306844077641400132185776309e8,4.06437746752981128146950255134935e8,-3.94812834946508555334528022186123e8,3.59287819255770731293055501452539e8,-3.03611008999867729375941301671829e8,2.33738977670215623234524198230525e8,-1.57441928495429209844426246429358e8,8.39949558184132631839177748389810e7,-2.46155519313138549936845201368383e7,-3.92922516031210216192929605290122e8,-4.28363948569095840821763502854111e7,1.46769088385298966313232915138583e8,-2.76762234481618911202302613954065e8,4.13524854970564392231615263869989e8,-5.40279839475180684417750210160146e8,6.42528862770479737731849493478848e8,7.32871505653103270583372071525007e8,-7.11467346772302772606417297242682e8,6.47141950448958685198052227758744e8,-5.46662422233305061804549461273077e8,4.20746023239141529334726628553226e8,-2.83355339180254541871496140977655e8,1.51152293650119756255141239884707e8,-4.42940339332636544709915517080676e7,-7.09076968053699702778970177668368e8,-7.83595351119870976628802263636458e7,2.68211540266987844693232014012035e8,-5.05028172019709042801577660868361e8,7.53427665039090517625267406168017e8,-9.83026768826167387466944469375027e8,1.16777718927268316334243529749965e9,1.32994165737877802793662044780206e9,-1.29042839517008679983453936736687e9,1.17328538400367024301077769534605e9,-9.90812476592693751699152883641692e8,7.62424670030519799556467947168414e8,-5.13384977185986242638499579106025e8,2.73832863129047337552916699321164e8,-8.02407237556163696924268149086025e7,-1.28761992034126917212513504636041e9,-1.43947470709756941524794385682573e8,4.92328971347832618213587510026268e8,-9.25987857856753248708644801561868e8,1.37978777590095130005621977651638e9,-1.79833318952830649433658806340676e9,2.13442989774296503623669650465527e9,2.42776911974335564535819798502547e9,-2.35459415228875240396965800582770e9,2.14010519536344110142844914969343e9,-1.80679672675823614568802756299126e9,1.39005942938840861659509161787158e9,-9.35889883658051646782125092206517e8,4.99152531258973034955249614860724e8,-1.46259878073335513246282776957868e8,-2.35182376176656639118834979116430e9,-2.65535342587568046226359459973842e8,9.07646460040234877575524074211406e8,-1.70564667598858223692042297838629e9,2.53916346324380667181469134914878e9,-3.30657703420111658340390044144226e9,3.92174530049047927775350172534451e9,4.45597570253239351808522194200609e9,-4.31999636794063341830478059902708e9,3.92527482465604246028361038005952e9,-3.31317937667139658544089226015657e9,2.54858406421151240942889285431077e9,-1.71571112093166815193507950176966e9,9.15007828737768311758547858392052e8,-2.68103660654951880076546043611482e8,-4.31864806483922428259297344968248e9,-4.91788906000710439528483280348470e8,1.68025112229538424047795691794863e9,-3.15538247875337117426849822674240e9,4.69389041210235490876870599947953e9,-6.10832505372102735862135419667281e9,7.24043205156329605237434787339999e9,8.21915854024029991810100948941526e9,-7.96559014111108944043157683768021e9,7.23579818864099724370833998520485e9,-6.10623794411926641185466845428263e9,4.69642439348761701865431869728092e9,-3.16135994399963850315123675174904e9,1.68590104013315455770762799950928e9,-4.93968256597486353215625018711004e8,-7.96920302407097491589180187734256e9,-9.14272692980798144180138885854272e8,3.12259294477746104131312535704761e9,-5.86084234156001860553806244827222e9,8.71329842914763072898369741435482e9,-1.13324718835685394941184586788469e10,1.34259897160001423302871270737259e10,1.52283426195774437898323844675542e10,-1.47539056842114639216953490410655e10,1.33988894453628994489082283393395e10,-1.13052092293983642567929463832473e10,8.69401855769279430580908791222406e9,-5.85188323083149226166909940256737e9,3.12058743193370639568322656589848e9,-9.14313711211743903425122984126065e8,-1.47708203706465095329191136844035e10,-1.70567381593365751816664357303396e9,5.82386506847402344154236329979597e9,-1.09261598409224067343280959649247e10,1.62359123471047713601060311250939e10,-2.11061245080149772841054030442193e10,2.49940184559617196825603107666041e10,2.83281091115463344790407637441763e10,-2.74376388043934298223465557916600e10,2.49121921253414162081659291782743e10,-2.10161778872189664520676134467800e10,1.61604157802914877720175387895460e10,-1.08768488092370725436985210493222e10,5.80004611747160661643881676509714e9,-1.69935901183106346138994622864673e9,-2.74865763285621134189303540120447e10,-3.19234560993505071744889627658065e9,1.08974200340731832037006320880666e10,-2.04373051643812628752868603796256e10,3.03564774093214910301827602583364e10,-3.94456259821766761713733878958985e10,4.66929222811893130067032089309275e10,5.28848797928288206491158327714146e10,-5.12088668190242420564329942449373e10,4.64861407715394628813370703710896e10,-3.92109008767107684574246628807433e10,3.01488809662550024533771873615455e10,-2.02910492875049441349803738701300e10,1.08199639889398063533074684482629e10,-3.17013205584385266813824024658297e9,-5.13304594484973530905703221031331e10};
+initializer_list<long double> lc={0.01548694501931670235008337172098522L,0.03479667647853553185493684803296694L,0.05433880965100836897655448882481636L,0.06857704435284856993467310028590418L,0.08485791116530225937583690975086051L,0.09078157953835376749682153623925073L,0.09765843488669931245176351479442319L,0.1036143915653123346504342669434504L,0.08782469280754984363337892348937416L,0.08937084943452709920043850980922861L,0.06238242519373362883736257607867474L,0.06244994123995076490798999363730807L,0.02439485379512568288909399178569142L,0.02731970776145213757622190885319808L,0.1021494781000412816196272004605611L,0.01939817148120995840711836427250608L,0.0211067581595321269384689088278857L,0.08121477340166233011416168078233826L,0.02586655766256385795762420944705489L,0.1456412433875267419726235290556113L,0.00994444767136215468553147558678894L,-0.02865558414661822321673744921890372L,0.2552237320635022537246684511183629L,-0.09071841565465285033691830575765345L,0.2961902894578757448917340703429988L,-0.1726834420465857415489806238984482L,0.3200777775129626312883097593412251L,-0.2274546001628399563561448099924474L,0.1713517902485984794877074271561818L,0.2048598047635475398369538390813942L,0.1136884298670825987340258553312503L,-0.3086139811930171078243699344707191L,0.727375257813943516108082822490209L,-0.9981723891247870876168204768293324L,1.597212971869622178004713179975654L,-1.909740510796558388565682973922339L,-2.971674785716694833529205504822165L,3.730603054864996435777963543897095L,-4.084493655118041950245118367193094L,4.747370057746945257060717986274051L,-4.916751597781690405773008010888876L,4.960162410743290847258913909724261L,-3.909078257754967959726985517449424L,1.673159390637921755651975405159546L,2.624850312236741536584473922336776L,1.885809002530938783613966551148968L,-6.497784951233960984375479634122451L,12.82813412801130465788627861685805L,-20.10647053691677136090614291131674L,28.54324420064935210606459797335228L,-37.28918654693505359598797147432642L,-55.93130572386963547114695314633951L,65.05589830767824704620137881859433L,-72.59358446854811436350140928802416L,77.98231408415399203586622947570707L,-78.21421309479970938455355695551967L,70.17722141225433111042673682971036L,-49.21901882126405221820593761898941L,17.73505534001073558627132332415326L,46.78167880259831102863884641180707L,27.9098377517754591402830895894294L,-97.25965986386251988045943212249463L,189.815551125285219596575144887665L,-298.4618110115440001935328679927528L,418.8263092882996388843399146650867L,-545.6894639608232707277140854720097L,-797.9407525762504103772483737461375L,907.3534254681466753208222862603225L,-988.1633925768201826977692967467324L,1020.401630323403469899376429832675L,-973.8494311545676636268798971522986L,814.7390693567741952337710085350903L,-527.2709992282282943907992653429453L,176.2662882115434015514901913350486L,674.5379127605640128439765401014261L,324.0593533671237774039745972689825L,-1128.627698032414027769863157571901L,2195.608985214041559516847156037748L,-3440.159018531792083393851182127573L,4798.463896118086121925895883805775L,-6206.276968846755247916436530819228L,-8861.180030041794528692707604158564L,9894.489752492182122187196491667612L,-10524.76789923827214157095966528296L,10533.92974863634773413285684603226L,-9664.014026886427344098723239950291L,7708.397419344902923996412971427752L,-4745.688342922799591145040386302581L,1525.715117892192562919185001313421L,7591.352635761839380820264214974063L,20375.3374178553975523514611918219L,-70785.11207150138788251208963945376L,137038.6287917585859650554360503397L,-213177.7716851228178764120672096678L,294358.7967973297519777010470446781L,-375652.0106642814493937601093253794L,-515294.5022491727386832281937177042L,559135.1013124594091698168108041403L,-573806.954444953602804825753152564L,549618.9077151293440100040734889375L,-478886.9340500453832315703730113973L,361128.6937808107634058391877266453L,-210876.3262124956530426352215793376L,65329.66580160807655670601724895346L,451495.9797606217042774697740799878L,110499.9168571967210739651668532831L,-383466.7103141850512212723841787197L,740898.9016367143538566776803030291L,-1149091.68456520394598378919898957L,1580150.350971574294497933672845874L,-2005654.835970239848681387010157895L,-2708763.568805010243436827918497768L,2908201.828489469848025814483346821L,-2946765.351367637935938067352757412L,2781148.195825193895871238806166175L,-2384093.326849870617848128899401032L,1768448.034898132207905754336964133L,-1017870.020424873280032432618748628L,312365.4086644126330696010632683688L,2393994.461551373967558181323297493L,467718.6802151394785678077652077971L,-1621617.890979220545936455178157922L,3127815.319160658426160964272263526L,-4838766.058550451553813330024939002L,6630914.825912606021963534802794975L,-8378630.012379722349498151592961738L,-11172933.71559095697931497818564941L,11894393.98583663042019079958978691L,-11932764.33153171692549018772298915L,11135847.14650567855052338771011477L,-9431327.033964040882254734897877055L,6913219.366147356999919845927379599L,-3939018.83592911290843120598430574L,1200990.963630523080976557460824681L,9944159.288592302705217831007111441L,1553616.424046339494947664860295215L,-5382402.458684558585867870112274569L,10367191.03412227060722909895061737L,-16004841.04957765977466100094956978L,21870747.70320094379318374304410743L,-27534583.8349539852336366836989128L,-36347405.67710968343278330905970966L,38439005.76290117980013044594398246L,-38268877.1864589368917625636038651L,35410431.81286237500833029025201585L,-29723410.73339552339226372280438776L,21600808.85690208623110512683571788L,-12219714.08312803974653768694317525L,3708881.587812155159409860186525727L,32530553.62694712326744603086724636L,4072208.796209749242039069094349381L,-14099364.35012566139118662490476808L,27127108.08803906499746288642488323L,-41810079.63293033803870294710143133L,57007183.93423492379021095176719008L,-71565967.15100156347919119451699406L,-93735971.31563878665274867476330855L,98631965.85954464762723296348097523L,-97632445.69691862919473421589975493L,89772380.80938808408927674860760762L,-74865172.6581101583233636074138176L,54071624.04568332691882125504374856L,-30433707.00812072359480760162278575L,9207838.924847416267771750441551343L,84252399.21710751342200426507064786L,8464554.536249713202108325533949137L,-29293847.36020258264387021074470606L,56314485.98020123586689981872275089L,-86689203.9972065854474494438683506L,118003781.8144402585353299230501695L,-147827416.5878454774878325910761574L,-192513147.6200628190720168217476167L,201828541.2539529062748978512806362L,-198958084.5690587016774066356424206L,182121195.7826051877861784803318138L,-151183260.9500608292227447443736294L,108723885.4870277648969514177432693L,-60980235.92929554013107442255429376L,18409745.94334420129887293757997705L,173579008.1400145595263697238649329L,14009987.2767972028467227591219537L,-48470293.57600902485148135401736384L,93126672.844081680930613702165079L,-143237582.5814740208504904766830489L,194760678.4492351428191913025076142L,-243635138.2880626467514442131100295L,-316060616.9600131317886211596895903L,330547395.0913238693601819840179593L,-324954786.492119862714560544726221L,296579119.6407836139801673473493017L,-245461539.8331232876369869211849569L,176033542.0387701402285872272176236L,-98510263.86741379525852218345806696L,29698612.03678031282767926950641753L,285574216.1890805030593162131372078L,18520473.01252064781323421152832414L,-64064297.7813418933539149111675607L,123049458.5956426580799485570658686L,-189175054.4688124040087126484335376L,257064090.467037756819004678028548L,-321322125.066545155390657508506229L,-415966587.0388190337858959144064419L,434457864.665617455022013722956634L,-426475689.589787793480538604060674L,388618068.6255599467584183183694312L,-321121911.5016329838677254285611823L,229952248.1383140546694757158325706L,-128530065.8614703390964945736736536L,38720400.6045717026438319708509329L,376273129.1931416401882551284217526L,2918.957390681464612057984806518727L,-10153.07746760739948872393823721873L,19701.17703727105683439408171880756L,-30752.67410219426425299910208388505L,42666.57000691289940060669768964159L,-54794.58470261035635278338533586248L,-76571.62716017090949663213091313898L,84175.88654854786396775394479605221L,-87781.44384221246938786439369150847L,85712.4134667229778772459278940561L,-76339.9086251301931952843500922122L,58915.65955994871205813585897866819L,-35135.70360013797799916675757745234L,11041.83537826636819823734658284948L,66397.91951466522850776106515053269L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,long double>(long double* c)
 {
-initializer_list<double> lc={1.35465586136337391900281724085720e8,-4.60681378644386487887601593772952e8,8.58568449225997832682178025409777e8,1.62980773270973641453271705140326e9,-1.91373075459200241155012678369982e9,2.09118614227476511733595116081119e9,-2.15005805360944102792070842260647e9,2.09102196956134013566894213456307e9,-1.92558853554248175112214812646667e9,1.67352394854122819317382764185891e9,-1.36020107464601806028832611356813e9,1.01435436480691009151354550549362e9,3.49584899423826116223953835347481e8,-1.26514772220659452690528051068934e9,-6.66637158937146244809428227231107e8,-1.01468413496771250043602267236614e8,2.13698102776088093102068660799828e8,-7.26651643725632218446143588957117e8,1.35400497598124126723163176832037e9,2.56884012864949079504936425309200e9,-3.01529366070543441468830308377036e9,3.29366429732966960126439914579969e9,-3.38510199896387421751648681176189e9,3.29093246868170466804924787798564e9,-3.02951042107920902295667436712553e9,2.63211004982918810348222158226231e9,-2.13873281272469159670876550910865e9,1.59457537089069805630466550391776e9,5.49388050833458226665432022937496e8,-1.99469441956459511222788101258213e9,-1.04777723912036782956698488667852e9,-1.59451248582420824011235117577176e8,3.46179119632867422180361892421379e8,-1.17700185017008697081301055775435e9,2.19273022556746252397254266645035e9,4.15757248555689025008358777852561e9,-4.87830966579960689466631515614827e9,5.32653734381584282987804801012083e9,-5.47217522280448760559629396267116e9,5.31782203070486394434035762705560e9,-4.89355244890849863842168778451261e9,4.25019022200676523612320885483864e9,-3.45249335639224360380912322534260e9,2.57344885137091979793774453797781e9,8.86360944215550505897410531842017e8,-3.22941047851843465008671486532367e9,-1.69066473638409420223747677415076e9,-2.57233463555048944287832531353201e8,5.74550352097123966490317496104936e8,-1.95322920656860278575451117520258e9,3.63807852891860964783365161250257e9,6.89373052502165243535062220123914e9,-8.08563814693808035476157014207225e9,8.82487707688357463693020080489212e9,-9.06230806320038789805912521008274e9,8.80302126900001059567728268232927e9,-8.09751909260216097761661351814071e9,7.03043156111107887506025238554071e9,-5.70916490931232484133173905374457e9,4.25446069345865902331058192014210e9,1.46485258112289369546657485307289e9,-5.35657887415311429504642910236961e9,-2.79447771840905246784522408141932e9,-4.25086576174537446598152390992177e8,9.74350531965399648673486895160017e8,-3.31198693789156486956133689529064e9,6.16761497062241239427037027146678e9,1.16794850684560995531332926186623e10,-1.36934172240668320329142423294719e10,1.49390267320388378279973984039555e10,-1.53343263602179146851662059439186e10,1.48892810876267542234066159031190e10,-1.36905440569801971249550807740509e10,1.18821135186836820226130106236059e10,-9.64601175244933638677916751161119e9,7.18632240660337806607026679908251e9,2.47347410659889856199754404325688e9,-9.07838500087137476824864565407325e9,-4.71927430280217558808508779772449e9,-7.17722787110710841393697038135016e8,1.68363922014979923355250012144451e9,-5.72230730910881338628620162021075e9,1.06539436457305440044304428759058e10,2.01624459762315877644928415037318e10,-2.36298331196368946463066509860859e10,2.57684480966715521912678004604370e10,-2.64389235702123098815177105870213e10,2.56607613941237459370375526806370e10,-2.35854238545739746079186248142472e10,2.04625562001404622897978310961085e10,-1.66064781922920821670660719103858e10,1.23686818860366106212148268851797e10,4.25574146871824866742651408982429e9,-1.56775672703677721966172668039817e10,-8.12090209574214146370064147860485e9,-1.23478247569652544992292596943630e9,2.95639463017022167804279124185411e9,-1.00469570232252270154846115651337e10,1.87019319741559276409937502125899e10,3.53713735800732417604294801682623e10,-4.14383398482399553659640868019392e10,4.51700815076961454669342550974257e10,-4.63258223869437976662935740888650e10,4.49437206598976949895417732939619e10,-4.12927048006168631631220764500189e10,3.58125546471211940486365444011457e10,-2.90548498810793334479105981735519e10,2.16348138448418583494311990487511e10,7.44146145894016621881345639152575e9,-2.75127845540867692898851482503563e10,-1.42019377534288192757231171850883e10,-2.15893605512744324979998181939147e9,5.26250596088382863972559969775324e9,-1.78820157069352342352547256350806e10,3.32800603954485044892262678778178e10,6.29058590822657732171314199065487e10,-7.36681671297085854353791765694255e10,8.02702972936204879978802472497388e10,-8.22904397739252557112708882974213e10,7.98032485587854402700157178692675e10,-7.32925370648378550505202258751760e10,6.35435727433751900219644818654459e10,-5.15375934115427657250097008484006e10,3.83663189492253977706619700051552e10,1.31920441352421336121270057662428e10,-4.89458676379515329967477445807620e10,-2.51802659679264751729285847065493e10,-3.82702042588865281266649200559407e9,9.47565036430903449640665785945322e9,-3.21948671848913610296358894484459e10,5.99064314843571740652132410237003e10,1.13170276042200029252856885256574e11,-1.32484717799703171531639852430712e11,1.44302499393943397971000718016006e11,-1.47875817260534326171352825233778e11,1.43350721830768467417306323818018e11,-1.31607205015484831587561504088862e11,1.14063450821080379111863443581742e11,-9.24852549527192292873645902077266e10,6.88324903560049336554445266216987e10,2.36601170172989736586014144059391e10,-8.80833748595017561920392325998345e10,-4.51670881409721173239982665410738e10,-6.86331209603907212105420324350209e9,1.72273590250514430799784071040663e10,-5.85264483575631486546433171245547e10,1.08883438463478578592329689603019e11,2.05581338087554129386881965253243e11,-2.40584938694816488729366701882097e11,2.61948904020391694197375057803596e11,-2.68333992994466946743589072609106e11,2.60025938266161633796276775969695e11,-2.38640001381177234205884008005390e11,2.06761920804096751298756009823921e11,-1.67600285203898629145930001818213e11,1.24708077425131338242926468690478e11,4.28533180055518198129945324690095e10,-1.60057445931818799762669078474389e11,-8.18171957682459101307551161794265e10,-1.24299857653248033167547417981923e10,3.15760688895882210232311092035000e10,-1.07262890123747067473050192246173e11,1.99519643417147285924522119350000e11,3.76514298828259568627938630150477e11,-4.40478056514774096893247323736062e11,4.79423779431057655464464639163514e11,-4.90932241172344318313226379903544e11,4.75562479272391469294284223711539e11,-4.36302030664672334673287212196292e11,3.77903264429747490970688017621934e11,-3.06244199181637611363413617880987e11,2.27819298485906332866534475739444e11,7.82621932380898963083888259899838e10,-2.93223157785053847250225304628886e11,-1.49439347908153424422177016959302e11,-2.26991026417088687863842085937837e10,5.82744182866121185237413753647345e10,-1.97938096311649591028306775784207e11,3.68125245178410352250250551137856e11,6.94346133516680423273414827373877e11,-8.12051159771349038486919924147219e11,8.83553153296300335165238777670035e11,-9.04449702225396765096183193685514e11,8.75834658131935830574279554145252e11,-8.03269018580641923822604919955700e11,6.95546285962339095525897011935226e11,-5.63509250312167449070680108206096e11,4.19112300516614172597797992326083e11,1.43935745017730938301449359870104e11,-5.40893277127645259415525823057143e11,-2.74873153282338733162107263965912e11,-4.17442822953457160346539119222824e10,1.08174897022043774913286819217461e11,-3.67400605899282814785510162318200e11,6.83186806881003286667446139847790e11,1.28799617450494569820119924796588e12,-1.50588800346528894251233324261117e12,1.63795687158529932084820192240820e12,-1.67614079972666936202694987964882e12,1.62258031463885973255229434671086e12,-1.48768237169146738063542139692607e12,1.28781100997480481543659027712950e12,-1.04308452491538952171934709223484e12,7.75638475396162988558284058656091e11,2.66304976097499642959649999835576e11,-1.00360632572114631043108723233254e12,-5.08617894321550326460552733481756e11,-7.72290003597422071278287698319203e10,2.01805253626465064381466294889615e11,-6.85345516813585467883937519823857e11,1.27422371708031566412290390870519e12,2.40118080284000218343044217113823e12,-2.80659308193092434626324973666100e12,3.05179823944878247369561231758514e12,-3.12195241811468291255503432087730e12,3.02124483787884063649787683687501e12,-2.76924006275222852695470862187051e12,2.39653853871372854702821295987993e12,-1.94065559347154342384697985197274e12,1.44278749072165805433202804535348e12,4.95231982313350082869824911346474e11,-1.87146535130246210704964047871247e12,-9.45949168472138123493071668835338e11,-1.43609669765500883728244171793124e11,3.78085907103031653818728155860857e11,-1.28390527785669622145796474457798e12,2.38675847070303124394510000933157e12,4.49573191722506532847975381049802e12,-5.25335570894090752107205676158958e12,5.71064800265115961080076962954542e12,-5.84014964178037905034669307091516e12,5.65006034047515201420659947896795e12,-5.17730348572118309323158345172440e12,4.47933981801193598842710187260520e12,-3.62642590597336915425893963137719e12,2.69556698932695389456710812495211e12,9.25011744460729384465661449729955e11,-3.50477943848595192894071681087866e12,-1.76706004392648546320388881630852e12,-2.68223687272014518817131952143896e11,7.10965349508295549690815343928992e11,-2.41411433735432732830550508129189e12,4.48719912799502667824377591195344e12,8.44866336634231526657628551693527e12,-9.86986304382097783357418124210916e12,1.07259835049051542222792229295468e13,-1.09660216164093621653132163886639e13,1.06060289636498706211628516006678e13,-9.71592200995287362219538694348032e12,8.40398658134252900492184533167933e12,-6.80228297274856186883108458943108e12,5.05529595199178494848567152044560e12,1.73435763137283681440950207903501e12,-6.58790428096974039978572929006612e12,-3.31349220653666687252507413684109e12,-5.02880009315234999769261500204813e11};
+initializer_list<long double> lc={0.01349022097776155469288578503459811L,0.0314279629951824571654827355119911L,0.04698737330794294586664023194284438L,0.07345478575330430940672188812080006L,0.08636939182540838863599913948004809L,0.0890178071285127236164968634241197L,0.09754771266537319105436080726905555L,0.09131430819887298733645784873438493L,0.09536076620049494107109411684261041L,0.07979417499966278845273090143969221L,0.08041553983513388331698275565453432L,0.05569811537644568923985094375639061L,0.02157562658951848807696503403932174L,0.06325644000772592632781347865905192L,0.05546229873410799633706588627465895L,0.02412700790872676310437449709073161L,0.01041555203131189034456116517330605L,0.04219114386224318490441253335699268L,0.02585259690661471368962891405667976L,0.02562547875012194151177357161638318L,0.1500023178045775939485393648595715L,0.008136289984468000166654659037182026L,0.1970554386586907026081914685866764L,-0.02818103703304936891706122163196873L,0.2362258460460136150098002306052913L,-0.08382600774534589362160545376976816L,0.2679603343926934344201808213432485L,-0.1557653337850175253883630369227077L,-0.202695621772206622927513247212677L,0.0968529828342800279162661168409564L,0.2858568057975830996424700139143007L,0.1520057017304049186530698923792288L,-0.06537133769994487053695838296185765L,0.3072940365400761485454719167798824L,-0.4939859684954647891685914618317714L,-1.14470357745165178782422310989853L,1.700435649618988561139569222692845L,-1.951087129920032122245612228534269L,2.588047209293261445491118428516815L,-2.866899863999947677198069394921815L,3.527867754456033850053471686916826L,-3.813739657366436942384373642126461L,4.380109954499443308474139599413855L,-4.501695976083804661026741136460698L,-3.536393685402610783326482712326902L,0.9214402564578421580517596090267445L,4.508799369704581137428674368712879L,1.50706736465575115258661328814626L,-24.66573011462379298776976219965984L,86.18170450278880685928538232114353L,-168.2362048998451831088760811089554L,-373.4413828164933730295461916455377L,489.3046926512049697161292346460227L,-608.6710945699782576394545347371239L,727.7275140552024949266383783386261L,-839.6942511978939181922259187370109L,936.6163774626017946635500120140333L,-1004.666033312626908933162286037703L,1024.778727378309997324044496515927L,-968.237138827915539935403316404624L,-516.4331599727268089121849673094917L,265.4345475478726196940863767959031L,803.3039869145901446756683042751287L,171.8885070773316330049975373912969L,-309.6345266230753068541786525396837L,1079.688005413717104612116054275779L,-2104.344120857710126385389097837793L,-4633.917092432873203524166042679304L,6031.869004809695317582173465353356L,-7443.95538188348979194092614181583L,8801.825807518198072193666204822143L,-10014.89637302627488910939206221143L,10962.06761392659283591343928854966L,-11475.7614176367137468804906451298L,11336.49244946401863284970124131527L,-10287.72052401687300991295579962339L,-4971.525119996433356123113088559764L,3307.619980128519967684683098450458L,8132.181815211386661418879180466389L,1591.280871612486224782781787442443L,-3066.775991912408142039407277911596L,10680.83358198762804157978872919655L,-20774.13514007822915441887807896837L,-45397.11789086679748867744061319191L,58741.05403828065374054804025476579L,-71934.53436403724241667674788705962L,84207.88439919055276398138579138703L,-94594.34968313673430914099355594323L,101861.4158674799258040184341112406L,-104461.2383834219323315332069485284L,100594.6229524654456262756235588741L,-88560.73242685112378763666729084758L,-40077.76377268542646657530206011333L,32547.29217934828830092467866585901L,67696.03747875911830960265161385955L,12538.86635370289188031142575713066L,-23920.39263659121645058328162628519L,83219.28754669664446044331834467555L,-161542.3551289634008253652072845992L,-350530.1715794216431659290678383015L,451117.3582185521827515471088833233L,-548605.0101822387030053541065316375L,636549.8295251792440745305073462212L,-707170.5486058857081107661018290001L,751082.3071223287623982769214214406L,-757420.7636211661492109978288954294L,714978.6641463210399892557122052115L,-615381.7138184846191176424761311418L,-266254.1391403911153696729724216368L,252341.2796728782922489147980294561L,459424.6483855441708167344391801779L,82113.17258938729969788814448785769L,-147059.6288165629287881760674752723L,511128.8095723841536876463214704128L,-990428.3742936584591616367099916448L,-2135658.318824454625492735843246476L,2735451.410456762572248432165032054L,-3306480.631560549145029279819748157L,3807537.058772526849816810670624678L,-4190601.330681175998154101924987191L,4400647.22033996532057014851957522L,-4378475.074998554700095783672768346L,4069719.956244189760469745422905631L,-3444219.99701987240104975537313806L,-1443884.310587003889156903101683991L,1543025.338357939850328827444781316L,2528237.221096686019417135833483779L,441062.199447632539208346227825714L,-714824.6158094610919137586029731737L,2482394.008828406615146858655120646L,-4802777.008522312777843923425824782L,-10300048.08896985905523053524352193L,13139133.18125037051373292664710434L,-15800508.2738135997617223527381383L,18079680.22319378964810003801994956L,-19745839.60599168903308792068874116L,20546204.28728605277521278350295948L,-20226136.75307780062345993531546648L,18577012.42249265660045688340464645L,-15524325.91164659956338273541038278L,-6362337.641604278885514949417423906L,7465221.869124156909204557954996832L,11256439.0804710798083693822414079L,1930714.467590863311562137031517559L,-2759131.076754568881288798413154462L,9574870.558751390653465068339387424L,-18500598.43744049136846964951645896L,-39495096.19234549294576151951884719L,50210302.78519437363232219455708201L,-60124074.43118446756181722877550021L,68439615.26960649905786155216487925L,-74282043.89493158337861088851698609L,76729869.72837663315450014578052434L,-74907361.65286621761816895691738706L,68173169.43429923653071642032093089L,-56432508.53653780621319435265774332L,-22749874.02616050601985133994255817L,28700643.07303687200946238186356958L,40550722.79519484957309055506353327L,6871496.332769668204358109339938428L,-8497625.16981641543814580910686163L,29471487.47218890789979495194565537L,-56883564.38921616547012135093016501L,-120980602.2598599937154624257451539L,153378479.9175379484556102303139865L,-183032340.6609541608328335734198791L,207480804.4933259709023581726361167L,-224082861.3697767035338720102875588L,230146369.0698785524433857285262836L,-223238582.1801603747262375518364062L,201761599.6154861283561858153261596L,-165834362.2968365251070963682080835L,-66054237.63607031464517350567390715L,88104843.51623610340917771266631162L,118375850.2850258868474222478773494L,19884743.40194927735632961013948833L,-20980096.69944671751594265335948618L,72729170.66555031260986066245304925L,-140256257.9428433500206625357379392L,-297416905.262703629662190762374209L,376245864.3647381252912858848773819L,-447785903.9694525319789458576846193L,505961986.2405746286284579464076845L,-544375304.9193249156302495077891415L,556673364.6515901879331767833448315L,-537351897.8423309997803189775776245L,483146167.3411482581671279467098688L,-395046860.8538882613080155990588979L,-155990013.2221939953768678817819813L,216963769.7890435814346153981998553L,280636140.2097689334414122588000699L,46846779.32747257794475841151870825L,-66936838.27229425886178353915853416L,231904548.171185105440498281373987L,-446739494.8590806038316641245659851L,-943803948.0786468240531791534764967L,1190720384.504360219845065962965231L,-1412409571.545930953633962163385749L,1589556758.054695860558426373070624L,-1702294261.696078414179636985072848L,1731560161.985474138827563653898847L,-1661742878.860932591233916997701765L,1484943191.779187838503125986080183L,-1206750740.660840564477098295106172L,-471731994.7301487037813885754142184L,689968300.480172000856586566775172L,852471948.2625512459862604528761172L,141284437.4386140155717188448806021L,-1.548023210590897087429429012923335L,5.488463744737929113839781820770357L,-10.63485217861699093949037935915189L,-23.81815591504368532622996962004731L,31.57092334695854316406841610225284L,-39.41209134537940495531800720815629L,47.83428285081671140624510453388466L,-55.82536521635979841784230826988695L,63.71957449481581090337910931436424L,-70.08827674190698283195524389715678L,74.42039997890148432540201006713769L,-73.96455154450878554338304095364836L,-45.91598518238771008470110809546315L,16.96148302605724788587347117471576L,65.86157097211920414186573594011155L,16.47290071620982272872830686577325L,-41697253.50179568782250206062631255L,144495997.5222003926404834700192703L,-278477997.8189811906082418532161699L,-589213471.4909832091705744917077293L,744177939.2915135268277079137265576L,-883917523.4354684130206190654430421L,996378571.2982259041361612846830135L,-1069042083.09018866987586681856312L,1089727989.456209123236557849867474L,-1048225183.07152110624173706200609L,938995415.8840927715216676823362183L,-764936807.6917554806015612829759031L,-300210159.3152387040971991857744267L,430373303.0638772216191460548405294L,541561630.9325721111988536805516435L,90009633.90005701145163975622832086L,-87011219.2017913504180854832107153L,301412944.8369529578358032419186793L,-580500275.594049056741928648187024L,-1225378680.935416199256837158959258L,1545031076.061578846184813449161773L,-1831337459.166435461664565879595862L,2059221161.603055260883321763897335L,-2203025012.385448828506212679903255L,2238322462.109808669109634908188489L,-2145370224.210228611931306831236829L,1914587738.246513227994125750165202L,-1553877495.355938637823287344975726L,-606142008.1591846850515317086201423L,896238209.8515612788450929158244724L,1096391674.307444549266703960585121L,181437109.9862785087700847112458169L};
 copy(lc.begin(),lc.end(),c);
 
 }
-- 
2.43.0


From 85b9a6c5efed9261ee1a37a7daa0f1e218c332b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 32/39] fix: SymplecticRK extrapolates from the preceding value
 of u, as Extrap expects

---
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 454d95e..bb3f0a8 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -60,7 +60,7 @@ public:
 	Ext.change_h(h);
       }
     if(do_extrap)
-      Ext(Y1,Y,u);
+      Ext(Y1,Y,a);
     else
       {
 	// this vectorizes with gcc
-- 
2.43.0


From a94daf366ba9ce60470cb0624c890e41fe452ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 33/39] fix: SymplecticRK does not extrapolate from a step that
 did not converge

A NaN met in such a step was kept for ever.
---
 SymplecticRK/include/SymplecticRK.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index bb3f0a8..08ea4af 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -21,6 +21,7 @@ template<class Fonct,int nsteps,class Double=double> class SymplecticRK
   Double v[n],Y[n*nsteps],Y1[n*nsteps],delta[n],e[n],a[n];
   int iter,itermax;
   Double Old_h;
+  bool converged; // did the preceding step converge ?
   Fonct f;
   Extrap<n,nsteps,Double> Ext;
   GaussianMethod<nsteps,Double> G;
@@ -36,6 +37,7 @@ public:
     for(int i=0;i<n;i++) 
       e[i]=0.0; //for Compensated Summation.
     Old_h=1.0;
+    converged=false;
    }
   //! destructor
   ~SymplecticRK()
@@ -52,7 +54,7 @@ public:
   //! \note return true iff the fixed points iterations converged.
   bool step(Double h,Double u[],bool& firstStep)
   {
-    bool do_extrap= !firstStep && Old_h==h;
+    bool do_extrap= !firstStep && converged && Old_h==h;
     if(Old_h!=h)
       {
 	Old_h=h;
@@ -72,6 +74,7 @@ public:
       }
     
     bool success=false; 
+    converged=false;
 
     
     // iteration loop (fixed point iteration):
@@ -118,6 +121,7 @@ public:
 	if(success) break;
       }
    
+    converged=success;
     // 2nd phase:
     if(success)
       {
-- 
2.43.0


From 3c20ea0544bb4e2b84789a7f567f1dbb9279836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 34/39] fix: SymplecticRK::maxIter counts the last iteration

---
 SymplecticRK/include/SymplecticRK.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 08ea4af..4bfabe7 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -118,7 +118,11 @@ public:
 	      }
 	  }
 	success=Test.success();
-	if(success) break;
+	if(success)
+	  {
+	    ++iter;
+	    break;
+	  }
       }
    
     converged=success;
-- 
2.43.0


From fc3217ac5828ed63d6ac30aa9117279a6a832b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 35/39] fix: Rock4L.hpp: keep its CRLF line ends (converted by
 mistake in ff428da)

---
 Rock4-L/include/Rock4L.hpp | 752 ++++++++++++++++++-------------------
 1 file changed, 376 insertions(+), 376 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index fd1b007..e6cbd0f 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,376 +1,376 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel1(y,h);
-	  t=h==abs(tend-t)? tend:t+h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel2(y,b,h);
-	  t=h==abs(tend-t)? tend:t+h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
+      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel1(y,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel2(y,b,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
-- 
2.43.0


From 6a0c75d937718b9903fec5bd5d0efdd484f1f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 36/39] fix: dechc: imaginary part of the elimination when the
 pivot row has an imaginary element

---
 common/include/Hessenberg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 4ff65d6..69a299e 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -167,7 +167,7 @@ template<int n> int dechc(fortranArray<n>& Ar,fortranArray<n>& Ai,int ip[])
 		else if(tr==0.0)
 		  for(int i=kp1;i<=na;i++)
 		    {
-		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*tr;
+		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*ti;
 		      Ar(i,j)+=prodr;           Ai(i,j)+=prodi;
 		    }
 		else
-- 
2.43.0


From 6066a7224b7cf5acbf3ef1c2390c010bd2af1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 37/39] fix: Radau5cc starts Newton from the collocation
 polynomial of the preceding step

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index bdd5025..cf5a8ba 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -627,7 +627,7 @@ namespace odes
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save2(i)=((Z1(i)-Z2(i))*uC1MC2-save1(i))*uC1M1;
-	      double aaa=(uC1MC2-uC1M1)*uC2,bbb=uC1MC2*uC2;
+	      double aaa=(uC1MC2-1./C1)*uC2,bbb=uC1MC2*uC2;
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save3(i)=save2(i)-aaa*Z1(i)+bbb*Z2(i); 
-- 
2.43.0


From 6972142056273cb4015ef86a0b3a6bd87064d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 38/39] fix: Rock4L: align the work arrays as ASSUME_ALIGNED
 promises

With ALIGN_BLOCKED the compiler is told that g0 and g1 are aligned, which was
only true when the number of unknowns is a multiple of 8 (crash with -O3).
---
 Rock4-L/include/Rock4L.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index e6cbd0f..5efcd7f 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -72,7 +72,7 @@ namespace odes{
     //! make sub arrays.
     inline void splitBigArray()
     {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+      k1=BigArray; g0=k1+sizesplit; g1=g0+sizesplit; g2=g1+sizesplit;
     }
     //! permutate 3 adresses g0,g1,g2.
     //! \param g0 
@@ -245,8 +245,8 @@ namespace odes{
     Rock4L(Fonc& F): Fp(&F),size(Fp->size())
     {
       int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      sizesplit=bk*(size/bk+ (size%bk==0? 0:1));
+      BigArray=allocDoubleArray(4*sizesplit);//Allocate(4*size);
       splitBigArray();
        // do not allocate Vtemp. 
       uround=1.e-16;
-- 
2.43.0


From 757907ad1775273f4e44d382c215048a0096dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 39/39] fix: Radau5cc: the number of Newton iterations reported
 after an empty integration was that of an earlier one

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index cf5a8ba..eec16bb 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -465,7 +465,7 @@ namespace odes
       reject=false,last=false;
       cfac=safe*(1+2*nit);
       int reason=0;
-      nstep=0; ndec=0;
+      nstep=0; ndec=0; newt=0;
       faccon=1.;
       //h=_h;
       seth(x,_h);
-- 
2.43.0

