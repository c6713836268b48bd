From 7cdf1c0c29fb01a669bca41a2644dc033221d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:25 +0000
Subject: [PATCH 01/16] fix: refuse invalid spin labels in spinor products also
 when the component is cached

---
 source/sproduct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/sproduct.cpp b/source/sproduct.cpp
index 9cc32d2..177e0ad 100755
--- a/source/sproduct.cpp
+++ b/source/sproduct.cpp
@@ -316,6 +316,8 @@ namespace spinas {
   }
   //One massive spinor
   cdouble sproduct::v(const int& spin){
+    if(spin!=1 && spin!=-1)
+      throw std::runtime_error("Incorrect usage of sproduct.val(j).  The spin label must be 1 or -1.");
     if(isLeftMassive){
       if(isRightMassive){
 	throw std::runtime_error("Incorrect usage of sproduct.val(j).  Only one particle must be massive.");
@@ -385,6 +387,8 @@ namespace spinas {
   }
   //Both massive
   cdouble sproduct::v(const int& spinL, const int& spinR){
+    if((spinL!=1 && spinL!=-1) || (spinR!=1 && spinR!=-1))
+      throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  The spin labels must be 1 or -1.");
     if(!isLeftMassive || !isRightMassive){
       throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  Both particles must be massive.");
       return cdouble(0,0);
-- 
2.43.0


From f59fb9c05d93244a7f0305543174dcb9e7815295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:25 +0000
Subject: [PATCH 02/16] fix: drop cached spinors when the mass of a particle
 changes

---
 include/particle.h  | 1 +
 source/particle.cpp | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/particle.h b/include/particle.h
index d6cf2b5..0b75583 100755
--- a/include/particle.h
+++ b/include/particle.h
@@ -63,6 +63,7 @@ namespace spinas {
     bool rsquareLowerP1Calculated = false, rsquareLowerM1Calculated = false;
     cvector rsquareLowerP1, rsquareLowerM1;
 
+    void reset_calculated();//Forget the cached matrices and spinors
 
   public:
     particle();
diff --git a/source/particle.cpp b/source/particle.cpp
index 633c1ed..71d8dd1 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -47,6 +47,7 @@ namespace spinas {
   //Update momentum and mass
   void particle::set_mass(const ldouble& mass){
     m=mass;
+    reset_calculated();
   }
   void particle::set_momentum(const ldouble momentum[4]){
     for(int j=0;j<4;j++) p[j]=momentum[j];
@@ -80,6 +81,11 @@ namespace spinas {
     sqrtEpP = cdouble(std::sqrt(p[0]+pmag),0);
     sqrtEmP = cdouble(std::sqrt(p[0]-pmag),0);
     
+    reset_calculated();
+  }
+
+  //Forget the cached matrices and spinors
+  void particle::reset_calculated(){
     //Reset all the calcs.
     //The matrices and spinors
     upMatCalculated = false, loMatCalculated = false;
-- 
2.43.0


From 8ab929c10a82f5c704e84001bf8fd6bb92ce1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:12 +0000
Subject: [PATCH 03/16] fix: refuse momenta and masses that are not numbers

---
 source/particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 71d8dd1..ff42e47 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -69,7 +69,7 @@ namespace spinas {
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000000;
     pxymag = std::sqrt(p[1]*p[1]+p[2]*p[2]);
     pmag = std::sqrt(pxymag*pxymag+p[3]*p[3]);
-    if(std::abs(p[0]*p[0]-pmag*pmag-m*m) > epsilon){
+    if(!(std::abs(p[0]*p[0]-pmag*pmag-m*m) <= epsilon)){
       throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-pmag*pmag) + " != " + std::to_string(m*m));
     }
     theta = atan2(pxymag,p[3]);
-- 
2.43.0


From e0da34cdefd999e67178a45b6da7326b3f8dca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:12 +0000
Subject: [PATCH 04/16] fix: keep sqrt(E-P) real for accepted momenta slightly
 below the mass shell

---
 source/particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index ff42e47..632a7f7 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -79,7 +79,7 @@ namespace spinas {
     s = std::polar(std::sin(theta/2.),phi);
     sc = std::conj(s);
     sqrtEpP = cdouble(std::sqrt(p[0]+pmag),0);
-    sqrtEmP = cdouble(std::sqrt(p[0]-pmag),0);
+    sqrtEmP = cdouble(p[0]>pmag ? std::sqrt(p[0]-pmag) : 0,0);
     
     reset_calculated();
   }
-- 
2.43.0


From 81cda05bdf19769e90549014d59da5ca0db99d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:47 +0000
Subject: [PATCH 05/16] fix: fail tolerance comparisons closed on values that
 are not numbers

---
 source/cmatrix.cpp  | 4 ++--
 source/cvector.cpp  | 2 +-
 source/particle.cpp | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/cmatrix.cpp b/source/cmatrix.cpp
index df8e7e9..2a8e4e3 100755
--- a/source/cmatrix.cpp
+++ b/source/cmatrix.cpp
@@ -68,7 +68,7 @@ namespace spinas {
   ldouble cmatrix::get_det() const{
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000;
     cdouble det = mat[0][0]*mat[1][1]-mat[0][1]*mat[1][0];
-    if (std::abs(std::imag(det)) > epsilon)
+    if (!(std::abs(std::imag(det)) <= epsilon))
       throw std::domain_error("Determinant has a non-zero imaginary part.");
     return std::real(det);
   }
@@ -187,7 +187,7 @@ namespace spinas {
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000;
     for(int i=0;i<2;i++)
       for(int j=0;j<2;j++)
-	if(std::abs(mat[i][j]-m.mat[i][j]) > epsilon) return false;
+	if(!(std::abs(mat[i][j]-m.mat[i][j]) <= epsilon)) return false;
     return true;
   }
   bool cmatrix::operator!=(const cmatrix &m) const{
diff --git a/source/cvector.cpp b/source/cvector.cpp
index 8be3ba7..8ba66ef 100755
--- a/source/cvector.cpp
+++ b/source/cvector.cpp
@@ -112,7 +112,7 @@ namespace spinas {
   bool cvector::operator==(const cvector &v2) const {
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 10000000;
     for(int i=0;i<2;i++)
-      if(std::abs(vec[i]-v2.vec[i]) > epsilon) return false;
+      if(!(std::abs(vec[i]-v2.vec[i]) <= epsilon)) return false;
     return true;
   }
   // !=
diff --git a/source/particle.cpp b/source/particle.cpp
index 632a7f7..2b2cbb1 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -114,10 +114,10 @@ namespace spinas {
     ldouble p1 = pmag*std::sin(theta)*std::cos(phi);
     ldouble p2 = pmag*std::sin(theta)*std::sin(phi);
     ldouble p3 = pmag*std::cos(theta);
-    if(std::abs(p[0]-p0) > epsilon ||
-       std::abs(p[1]-p1) > epsilon ||
-       std::abs(p[2]-p2) > epsilon ||
-       std::abs(p[3]-p3) > epsilon
+    if(!(std::abs(p[0]-p0) <= epsilon) ||
+       !(std::abs(p[1]-p1) <= epsilon) ||
+       !(std::abs(p[2]-p2) <= epsilon) ||
+       !(std::abs(p[3]-p3) <= epsilon)
        ){
       std::cout<<"{ "<<p[0]<<" , "<<p[1]<<" , "<<p[2]<<" , "<<p[3]<<" } != ";
       std::cout<<"{ "<<p0<<" , "<<p1<<" , "<<p2<<" , "<<p3<<" }"<<std::endl;
-- 
2.43.0


From 2c43717824d2d7c4188f015b835ae52f1f9da92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:28 +0000
Subject: [PATCH 06/16] fix: rotate by the requested angle also beyond half a
 turn and for negative angles

---
 source/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index bf6b6ee..b52685c 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -56,7 +56,7 @@ namespace spinas {
   //Rotate a Momentum by theta around axis given by normalized u[3]={ux,uy,uz}.
   void rotate_momentum(ldouble mom[4], const ldouble u[3], const ldouble& theta){
     ldouble cost = std::cos(theta), ux=u[0], uy=u[1], uz=u[2];
-    ldouble sint = std::sqrt(1.0-cost*cost);
+    ldouble sint = std::sin(theta);
     ldouble R[4][4] = {{1,0,0,0},
 		       {0, cost + ux*ux*(1 - cost), ux*uy*(1 - cost) - uz*sint, ux*uz*(1 - cost) + uy*sint},
 		       {0, ux*uy*(1 - cost) + uz*sint, cost + uy*uy*(1 - cost), uy*uz*(1 - cost) - ux*sint},
-- 
2.43.0


From dc2efe87c936af8536ffdf2d844b07e7b5ddb27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:28 +0000
Subject: [PATCH 07/16] fix: leave the momentum unchanged by a boost with zero
 velocity

---
 source/utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index b52685c..c3a61f6 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -72,6 +72,7 @@ namespace spinas {
   void boost_momentum(ldouble mom[4], const ldouble v[3]){
     ldouble vx=v[0], vy=v[1], vz=v[2];
     ldouble v2=vx*vx+vy*vy+vz*vz;
+    if(v2==0) return;//Nothing to do
     ldouble gamma = 1./std::sqrt(1-v2);
     ldouble B[4][4] = {{gamma, -gamma*vx, -gamma*vy, -gamma*vz},
 		       {-gamma*vx, 1 + (gamma - 1)*vx*vx/v2, (gamma - 1)*vx*vy/v2, (gamma - 1)*vx*vz/v2},
-- 
2.43.0


From 295e2bcbbc6c3c4799fc8faeb71329b7284ef5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:39 +0000
Subject: [PATCH 08/16] fix: write Mathematica forms with full precision and
 valid exponents

---
 source/cmatrix.cpp   | 9 +++++----
 source/cvector.cpp   | 5 +++--
 source/utilities.cpp | 2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/cmatrix.cpp b/source/cmatrix.cpp
index 2a8e4e3..e282e84 100755
--- a/source/cmatrix.cpp
+++ b/source/cmatrix.cpp
@@ -27,6 +27,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <string> 
 
 #include "types.h"
+#include "utilities.h"
 //#include "aliases.h"
 #include "cmatrix.h"
 
@@ -217,10 +218,10 @@ namespace spinas {
   
   std::string cmatrix::to_Mathematica_string() const {
     std::stringstream tmpStr;
-    tmpStr<<"{ { "<<std::real(mat[0][0])<<" + I* "<<std::imag(mat[0][0])<<
-      " , "<<std::real(mat[0][1])<<" + I* "<<std::imag(mat[0][1])<<
-      " } , { "<<std::real(mat[1][0])<<" + I* "<<std::imag(mat[1][0])<<
-      " , "<<std::real(mat[1][1])<<" + I* "<<std::imag(mat[1][1])<<" } }";
+    tmpStr<<"{ { "<<double_to_Mathematica_string(std::real(mat[0][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[0][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][1]))<<
+      " } , { "<<double_to_Mathematica_string(std::real(mat[1][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[1][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][1]))<<" } }";
     return tmpStr.str();
   }
   
diff --git a/source/cvector.cpp b/source/cvector.cpp
index 8ba66ef..3e1808c 100755
--- a/source/cvector.cpp
+++ b/source/cvector.cpp
@@ -25,6 +25,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <limits>
 
 #include "types.h"
+#include "utilities.h"
 //#include "aliases.h"
 #include "cmatrix.h"
 #include "cvector.h"
@@ -144,8 +145,8 @@ namespace spinas {
   std::string cvector::to_Mathematica_string() const {
     std::stringstream tmpStr;
     tmpStr<<"{ "
-	  <<std::real(vec[0])<<" + I * "<<std::imag(vec[0])<<
-      " , "<<std::real(vec[1])<<" + I * "<<std::imag(vec[1])<<
+	  <<double_to_Mathematica_string(std::real(vec[0]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[0]))<<
+      " , "<<double_to_Mathematica_string(std::real(vec[1]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[1]))<<
       " }";
     return tmpStr.str();
   }
diff --git a/source/utilities.cpp b/source/utilities.cpp
index c3a61f6..f4f4d37 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -41,7 +41,7 @@ namespace spinas {
     size_t epos;
     
     std::stringstream xStr;
-    xStr << std::setprecision(std::numeric_limits<ldouble>::digits10 + 1) << x;
+    xStr << std::setprecision(std::numeric_limits<ldouble>::max_digits10) << x;
     num=xStr.str();
     epos=num.find("e");
     if(epos != std::string::npos)
-- 
2.43.0


From 770c8e25de8a5b3fb0ccaab1f463b5ad62b63a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:12 +0000
Subject: [PATCH 09/16] fix: recompute everything that depends on the masses in
 set_masses

Six processes kept the W mass of their constructor, two kept the Z propagator
mass, and two built their electron propagator massless while set_masses made
it massive.
---
 SM/ZWWh.cpp | 1 +
 SM/ZhWW.cpp | 1 +
 SM/dAdh.cpp | 1 +
 SM/dgdh.cpp | 1 +
 SM/hgdd.cpp | 1 +
 SM/hguu.cpp | 1 +
 SM/nWWn.cpp | 2 +-
 SM/nnWW.cpp | 2 +-
 SM/uAuh.cpp | 1 +
 SM/uguh.cpp | 1 +
 10 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/SM/ZWWh.cpp b/SM/ZWWh.cpp
index 956c715..721c37b 100755
--- a/SM/ZWWh.cpp
+++ b/SM/ZWWh.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(mh);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = sqrt2*e*e/(2.0*MW*MW*SW*SW);
     preS = pre;
diff --git a/SM/ZhWW.cpp b/SM/ZhWW.cpp
index 9dbf049..c1ecf67 100755
--- a/SM/ZhWW.cpp
+++ b/SM/ZhWW.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(MW);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = e*e/(sqrt2*MW*MW*SW*SW);
     preS = pre;
diff --git a/SM/dAdh.cpp b/SM/dAdh.cpp
index 340ff04..f74c2f0 100755
--- a/SM/dAdh.cpp
+++ b/SM/dAdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dAdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/dgdh.cpp b/SM/dgdh.cpp
index 9bb48b4..bc610ca 100755
--- a/SM/dgdh.cpp
+++ b/SM/dgdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dgdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/hgdd.cpp b/SM/hgdd.cpp
index 91e6b14..dbf53eb 100755
--- a/SM/hgdd.cpp
+++ b/SM/hgdd.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hgdd::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(md);
     p4.set_mass(md);
diff --git a/SM/hguu.cpp b/SM/hguu.cpp
index a5a8d6d..fa6ce84 100755
--- a/SM/hguu.cpp
+++ b/SM/hguu.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hguu::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(mu);
     p4.set_mass(mu);
diff --git a/SM/nWWn.cpp b/SM/nWWn.cpp
index 2e0a7ed..944a5b9 100755
--- a/SM/nWWn.cpp
+++ b/SM/nWWn.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nWWn::nWWn(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/nnWW.cpp b/SM/nnWW.cpp
index 6b5a525..9f16a21 100755
--- a/SM/nnWW.cpp
+++ b/SM/nnWW.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nnWW::nnWW(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/uAuh.cpp b/SM/uAuh.cpp
index cbe541f..2b83998 100755
--- a/SM/uAuh.cpp
+++ b/SM/uAuh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uAuh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
diff --git a/SM/uguh.cpp b/SM/uguh.cpp
index 47d50c1..b105931 100755
--- a/SM/uguh.cpp
+++ b/SM/uguh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uguh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
-- 
2.43.0


From a42814a1de5116e628291c3c4ddd7924991c8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:12 +0000
Subject: [PATCH 10/16] fix: fill in the [241> and <241] products of eAeh::amp2
 at given momenta

---
 SM/eAeh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SM/eAeh.cpp b/SM/eAeh.cpp
index df427c5..dd1019c 100755
--- a/SM/eAeh.cpp
+++ b/SM/eAeh.cpp
@@ -171,6 +171,8 @@ namespace spinas {
       a23[i] = p2.langle()*p3.rangle(2*i-1);
       s243[i] = p2.lsquare()*p4.umat()*p3.rangle(2*i-1);
       a243[i] = p2.langle()*p4.lmat()*p3.rsquare(2*i-1);
+      s241[i] = p2.lsquare()*p4.umat()*p1.rangle(2*i-1);
+      a241[i] = p2.langle()*p4.lmat()*p1.rsquare(2*i-1);
     }
     s2342 = p2.lsquare()*p3.umat()*p4.lmat()*p2.rsquare();
     a2342 = p2.langle()*p3.lmat()*p4.umat()*p2.rangle();
-- 
2.43.0


From 29d8e3ed83979157bf929d53683a7c24d0b3f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:16 +0000
Subject: [PATCH 11/16] fix: use the Z width in the Z propagator of the
 four-fermion processes

The width was stored but the propagator was default-constructed and given the
mass only. In dddd the propagator was also built from the Z mass before that
mass was set.
---
 SM/dddd.cpp      | 4 ++--
 SM/dddd2.cpp     | 2 +-
 SM/ddee.cpp      | 2 +-
 SM/ddnn.cpp      | 2 +-
 SM/ddss.cpp      | 2 +-
 SM/deed.cpp      | 2 +-
 SM/dnnd.cpp      | 2 +-
 SM/dsds.cpp      | 2 +-
 SM/eeee.cpp      | 2 +-
 SM/eeee2.cpp     | 2 +-
 SM/eemm.cpp      | 2 +-
 SM/eenene.cpp    | 2 +-
 SM/eenmnm.cpp    | 2 +-
 SM/emem.cpp      | 2 +-
 SM/enenee.cpp    | 2 +-
 SM/enmenm.cpp    | 2 +-
 SM/nenenene.cpp  | 2 +-
 SM/nenenene2.cpp | 2 +-
 SM/nenenmnm.cpp  | 2 +-
 SM/nenmnenm.cpp  | 2 +-
 SM/ucuc.cpp      | 2 +-
 SM/udud.cpp      | 2 +-
 SM/ueeu.cpp      | 2 +-
 SM/unnu.cpp      | 2 +-
 SM/usus.cpp      | 2 +-
 SM/uucc.cpp      | 2 +-
 SM/uudd.cpp      | 2 +-
 SM/uuee.cpp      | 2 +-
 SM/uunn.cpp      | 2 +-
 SM/uuss.cpp      | 2 +-
 SM/uuuu.cpp      | 2 +-
 SM/uuuu2.cpp     | 2 +-
 32 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/SM/dddd.cpp b/SM/dddd.cpp
index d7b5242..20397ae 100755
--- a/SM/dddd.cpp
+++ b/SM/dddd.cpp
@@ -31,7 +31,7 @@ namespace spinas {
   //Constructors
   dddd::dddd(const ldouble& echarge, const ldouble& gscharge, const ldouble& massd, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
     e(echarge), gs(gscharge), md(massd), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), WZ(widthZ),
-    propAG(0,0), proph(mh,wh), propZ(MZ,WZ),
+    propAG(0,0), proph(mh,wh),
     p1(particle(md)), p2(particle(md)),
     p3(particle(md)), p4(particle(md)),
     a13a(sproduct(ANGLE,&p1,&p3)),
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*md*md/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/dddd2.cpp b/SM/dddd2.cpp
index 954523f..f211e2b 100755
--- a/SM/dddd2.cpp
+++ b/SM/dddd2.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*md*md/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/ddee.cpp b/SM/ddee.cpp
index 3ae71bf..bea8bc3 100755
--- a/SM/ddee.cpp
+++ b/SM/ddee.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/ddnn.cpp b/SM/ddnn.cpp
index 22ce0b8..d7935bc 100755
--- a/SM/ddnn.cpp
+++ b/SM/ddnn.cpp
@@ -40,7 +40,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/ddss.cpp b/SM/ddss.cpp
index f4ee478..d0fa091 100755
--- a/SM/ddss.cpp
+++ b/SM/ddss.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/deed.cpp b/SM/deed.cpp
index a4e93f6..56d0f02 100755
--- a/SM/deed.cpp
+++ b/SM/deed.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/dnnd.cpp b/SM/dnnd.cpp
index eba29ab..b37cff6 100755
--- a/SM/dnnd.cpp
+++ b/SM/dnnd.cpp
@@ -40,7 +40,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/dsds.cpp b/SM/dsds.cpp
index ea162fa..e114bba 100755
--- a/SM/dsds.cpp
+++ b/SM/dsds.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/eeee.cpp b/SM/eeee.cpp
index 320a861..bf9cc29 100755
--- a/SM/eeee.cpp
+++ b/SM/eeee.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eeee2.cpp b/SM/eeee2.cpp
index 3b1ae2f..6b5fb31 100755
--- a/SM/eeee2.cpp
+++ b/SM/eeee2.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eemm.cpp b/SM/eemm.cpp
index 3b045ea..65f7b7b 100755
--- a/SM/eemm.cpp
+++ b/SM/eemm.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eenene.cpp b/SM/eenene.cpp
index fddc1fb..346e86b 100755
--- a/SM/eenene.cpp
+++ b/SM/eenene.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/eenmnm.cpp b/SM/eenmnm.cpp
index b26e696..48f96db 100755
--- a/SM/eenmnm.cpp
+++ b/SM/eenmnm.cpp
@@ -48,7 +48,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/emem.cpp b/SM/emem.cpp
index 1b23d34..880c6ea 100755
--- a/SM/emem.cpp
+++ b/SM/emem.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/enenee.cpp b/SM/enenee.cpp
index 8e08123..d8f5f06 100755
--- a/SM/enenee.cpp
+++ b/SM/enenee.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/enmenm.cpp b/SM/enmenm.cpp
index 8ada286..175ce6a 100755
--- a/SM/enmenm.cpp
+++ b/SM/enmenm.cpp
@@ -48,7 +48,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/nenenene.cpp b/SM/nenenene.cpp
index 9d3957d..19f55e9 100755
--- a/SM/nenenene.cpp
+++ b/SM/nenenene.cpp
@@ -38,7 +38,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene::set_masses(const ldouble& massW){
diff --git a/SM/nenenene2.cpp b/SM/nenenene2.cpp
index 2823413..4629fab 100755
--- a/SM/nenenene2.cpp
+++ b/SM/nenenene2.cpp
@@ -38,7 +38,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene2::set_masses(const ldouble& massW){
diff --git a/SM/nenenmnm.cpp b/SM/nenenmnm.cpp
index 9953c2e..d98e38d 100755
--- a/SM/nenenmnm.cpp
+++ b/SM/nenenmnm.cpp
@@ -38,7 +38,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenmnm::set_masses(const ldouble& massW){
diff --git a/SM/nenmnenm.cpp b/SM/nenmnenm.cpp
index a2a834c..822da51 100755
--- a/SM/nenmnenm.cpp
+++ b/SM/nenmnenm.cpp
@@ -38,7 +38,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenmnenm::set_masses(const ldouble& massW){
diff --git a/SM/ucuc.cpp b/SM/ucuc.cpp
index 319db46..30063fb 100755
--- a/SM/ucuc.cpp
+++ b/SM/ucuc.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/udud.cpp b/SM/udud.cpp
index d50c75d..9833847 100755
--- a/SM/udud.cpp
+++ b/SM/udud.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/ueeu.cpp b/SM/ueeu.cpp
index bb58c11..cdd08a8 100755
--- a/SM/ueeu.cpp
+++ b/SM/ueeu.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/unnu.cpp b/SM/unnu.cpp
index 0aa75de..4eb40df 100755
--- a/SM/unnu.cpp
+++ b/SM/unnu.cpp
@@ -48,7 +48,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/usus.cpp b/SM/usus.cpp
index d783c1a..5300e25 100755
--- a/SM/usus.cpp
+++ b/SM/usus.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uucc.cpp b/SM/uucc.cpp
index 09c7b77..22b9288 100755
--- a/SM/uucc.cpp
+++ b/SM/uucc.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uudd.cpp b/SM/uudd.cpp
index 89698fc..3cabdf4 100755
--- a/SM/uudd.cpp
+++ b/SM/uudd.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuee.cpp b/SM/uuee.cpp
index c08c2d3..0aa6a2e 100755
--- a/SM/uuee.cpp
+++ b/SM/uuee.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uunn.cpp b/SM/uunn.cpp
index 6518114..689ed44 100755
--- a/SM/uunn.cpp
+++ b/SM/uunn.cpp
@@ -48,7 +48,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/uuss.cpp b/SM/uuss.cpp
index 2ff1bcf..1571220 100755
--- a/SM/uuss.cpp
+++ b/SM/uuss.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu.cpp b/SM/uuuu.cpp
index db629cc..a1d690b 100755
--- a/SM/uuuu.cpp
+++ b/SM/uuuu.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu2.cpp b/SM/uuuu2.cpp
index cc54632..136938f 100755
--- a/SM/uuuu2.cpp
+++ b/SM/uuuu2.cpp
@@ -49,7 +49,7 @@ namespace spinas {
   {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
-    propZ.set_mass(MZ);
+    propZ = propagator(MZ,WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
-- 
2.43.0


From 746e5737bba8b44db968c8b386979627bc66a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:04 +0000
Subject: [PATCH 12/16] fix: complete particles that are built without a
 momentum

---
 source/particle.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 2b2cbb1..4988882 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -32,11 +32,17 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 namespace spinas {
   //Constructors
-  particle::particle()
-  {}
+  particle::particle():
+    m(0), p{0,0,0,0}
+  {
+    update();
+  }
 
   particle::particle(const ldouble& mass):
-    m(mass), p{m,0,0,0}{}
+    m(mass), p{m,0,0,0}
+  {
+    update();
+  }
 
   particle::particle(const ldouble momentum[4], const ldouble& mass):
     m(mass),p{momentum[0],momentum[1],momentum[2],momentum[3]}
-- 
2.43.0


From 15f0da0370605e360507edef14ddefd0ee1da5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:27 +0000
Subject: [PATCH 13/16] fix: compute the angles of a particle in working
 precision

Unqualified atan2 picked the double overload, so theta and phi lost
precision when ldouble is long double.
---
 source/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 4988882..692ad54 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -78,8 +78,8 @@ namespace spinas {
     if(!(std::abs(p[0]*p[0]-pmag*pmag-m*m) <= epsilon)){
       throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-pmag*pmag) + " != " + std::to_string(m*m));
     }
-    theta = atan2(pxymag,p[3]);
-    phi = atan2(p[2],p[1]);
+    theta = std::atan2(pxymag,p[3]);
+    phi = std::atan2(p[2],p[1]);
     //if(phi<0) phi+=2.*PI;
     c = cdouble(std::cos(theta/2.),0.);
     s = std::polar(std::sin(theta/2.),phi);
-- 
2.43.0


From 9523973ade1045eaf367d0e3a32e137df50f9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:27 +0000
Subject: [PATCH 14/16] fix: keep fractions and square roots of constants in
 working precision

Expressions such as 2.0/3.0 and sqrt(2.0) were evaluated in double and
only then widened, which limited the couplings and the spin
normalization to double precision.
---
 SM/AAdd.cpp        |  2 +-
 SM/AAuu.cpp        |  2 +-
 SM/AWud.cpp        |  4 ++--
 SM/AZdd.cpp        |  2 +-
 SM/AZuu.cpp        |  2 +-
 SM/AdZd.cpp        |  2 +-
 SM/AnWe.cpp        |  4 ++--
 SM/AuZu.cpp        |  2 +-
 SM/WdWd.cpp        |  2 +-
 SM/WdZu.cpp        |  6 +++---
 SM/ZnWe.cpp        | 12 ++++++------
 SM/dAAd.cpp        |  2 +-
 SM/dAdh.cpp        |  2 +-
 SM/dAgd.cpp        |  2 +-
 SM/dWgu.cpp        |  4 ++--
 SM/dZZd.cpp        |  2 +-
 SM/dZdh.cpp        |  4 ++--
 SM/ddAA.cpp        |  2 +-
 SM/ddAh.cpp        |  2 +-
 SM/ddWW.cpp        |  2 +-
 SM/ddZZ.cpp        |  2 +-
 SM/ddZh.cpp        |  4 ++--
 SM/dddd.cpp        |  4 ++--
 SM/dddd2.cpp       |  4 ++--
 SM/ddee.cpp        |  4 ++--
 SM/ddnn.cpp        |  4 ++--
 SM/ddss.cpp        |  4 ++--
 SM/deed.cpp        |  4 ++--
 SM/dggd.cpp        |  6 +++---
 SM/dnnd.cpp        |  4 ++--
 SM/dsds.cpp        |  4 ++--
 SM/enAW.cpp        |  4 ++--
 SM/enZW.cpp        | 12 ++++++------
 SM/gAdd.cpp        |  2 +-
 SM/gAuu.cpp        |  2 +-
 SM/gWud.cpp        |  4 ++--
 SM/gZdd.cpp        |  2 +-
 SM/gZuu.cpp        |  2 +-
 SM/gdZd.cpp        |  2 +-
 SM/ggdd.cpp        |  8 ++++----
 SM/gguu.cpp        |  8 ++++----
 SM/guAu.cpp        |  2 +-
 SM/guZu.cpp        |  2 +-
 SM/gugu.cpp        |  6 +++---
 SM/uAAu.cpp        |  2 +-
 SM/uAuh.cpp        |  2 +-
 SM/uWWu.cpp        |  2 +-
 SM/uZZu.cpp        |  2 +-
 SM/uZuh.cpp        |  4 ++--
 SM/ucuc.cpp        |  4 ++--
 SM/udAW.cpp        |  4 ++--
 SM/udZW.cpp        |  6 +++---
 SM/udud.cpp        |  8 ++++----
 SM/ueeu.cpp        |  4 ++--
 SM/unnu.cpp        |  4 ++--
 SM/usus.cpp        |  8 ++++----
 SM/uuAA.cpp        |  2 +-
 SM/uuAh.cpp        |  2 +-
 SM/uuWW.cpp        |  2 +-
 SM/uuZZ.cpp        |  2 +-
 SM/uuZh.cpp        |  4 ++--
 SM/uucc.cpp        |  4 ++--
 SM/uudd.cpp        |  8 ++++----
 SM/uuee.cpp        |  4 ++--
 SM/uuhh.cpp        |  4 ++--
 SM/uunn.cpp        |  4 ++--
 SM/uuss.cpp        |  8 ++++----
 SM/uuuu.cpp        |  4 ++--
 SM/uuuu2.cpp       |  4 ++--
 source/process.cpp |  2 +-
 70 files changed, 133 insertions(+), 133 deletions(-)

diff --git a/SM/AAdd.cpp b/SM/AAdd.cpp
index 42a6a84..0aa4548 100755
--- a/SM/AAdd.cpp
+++ b/SM/AAdd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   AAdd::AAdd(const ldouble& echarge, const ldouble& massd):
-    e(echarge), Qd(-1.0/3.0), md(massd), prop(massd,0){
+    e(echarge), Qd(-ldouble(1.0)/3.0), md(massd), prop(massd,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(0);
diff --git a/SM/AAuu.cpp b/SM/AAuu.cpp
index a57214e..2d3e748 100755
--- a/SM/AAuu.cpp
+++ b/SM/AAuu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   AAuu::AAuu(const ldouble& echarge, const ldouble& massu):
-    e(echarge), Qu(2.0/3.0), mu(massu), prop(massu,0){
+    e(echarge), Qu(ldouble(2.0)/3.0), mu(massu), prop(massu,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(0);
diff --git a/SM/AWud.cpp b/SM/AWud.cpp
index a6f28ed..79fb221 100755
--- a/SM/AWud.cpp
+++ b/SM/AWud.cpp
@@ -52,7 +52,7 @@ namespace spinas {
     s231a= sproduct(SQUARE,&p2,&p3,&p1);
     s431a= sproduct(SQUARE,&p4,&p3,&p1);
     //prefactor
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void AWud::set_masses(const ldouble& massu, const ldouble& massd, const ldouble& massW){
     //constexpr ldouble sqrt2 = std::sqrt(2);
@@ -65,7 +65,7 @@ namespace spinas {
     propW.set_mass(MW);
     propu.set_mass(mu);
     propd.set_mass(md);
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void AWud::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     constexpr ldouble one=1, two=2, three=3;
diff --git a/SM/AZdd.cpp b/SM/AZdd.cpp
index ea50318..003b751 100755
--- a/SM/AZdd.cpp
+++ b/SM/AZdd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   AZdd::AZdd(const ldouble& echarge, const ldouble& massd, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qd(-1.0/3.0), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massd,0) {
+    e(echarge), Qd(-ldouble(1.0)/3.0), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massd,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/AZuu.cpp b/SM/AZuu.cpp
index ad00419..b1a7498 100755
--- a/SM/AZuu.cpp
+++ b/SM/AZuu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   AZuu::AZuu(const ldouble& echarge, const ldouble& massu, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qu(2.0/3.0), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
+    e(echarge), Qu(ldouble(2.0)/3.0), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/AdZd.cpp b/SM/AdZd.cpp
index e4f6ad8..01a2bcf 100755
--- a/SM/AdZd.cpp
+++ b/SM/AdZd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   AdZd::AdZd(const ldouble& echarge, const ldouble& massd, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qd(-1.0/3.0), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massd,0) {
+    e(echarge), Qd(-ldouble(1.0)/3.0), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massd,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/AnWe.cpp b/SM/AnWe.cpp
index 4b2733b..ec93c2d 100755
--- a/SM/AnWe.cpp
+++ b/SM/AnWe.cpp
@@ -50,7 +50,7 @@ namespace spinas {
     a13a = sproduct(ANGLE,&p1,&p3);
     s341a = sproduct(SQUARE,&p3,&p4,&p1);
     //prefactor
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void AnWe::set_masses(const ldouble& masse, const ldouble& massW){
     //constexpr ldouble sqrt2 = std::sqrt(2);
@@ -60,7 +60,7 @@ namespace spinas {
     p4.set_mass(me);
     propW.set_mass(MW);
     prope.set_mass(me);
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void AnWe::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     //Particles
diff --git a/SM/AuZu.cpp b/SM/AuZu.cpp
index c3ff1e1..281dfae 100755
--- a/SM/AuZu.cpp
+++ b/SM/AuZu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   AuZu::AuZu(const ldouble& echarge, const ldouble& massu, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qu(2.0/3.0), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
+    e(echarge), Qu(ldouble(2.0)/3.0), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/WdWd.cpp b/SM/WdWd.cpp
index 626f665..045599a 100755
--- a/SM/WdWd.cpp
+++ b/SM/WdWd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   WdWd::WdWd(const ldouble& echarge, const ldouble& massd, const ldouble& massu, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(-1.0/3.0), md(massd), mu(massu), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propu(mu,0), propA(0,0) {
+    e(echarge), Qf(-ldouble(1.0)/3.0), md(massd), mu(massu), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propu(mu,0), propA(0,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/WdZu.cpp b/SM/WdZu.cpp
index 326b109..585edb9 100755
--- a/SM/WdZu.cpp
+++ b/SM/WdZu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   WdZu::WdZu(const ldouble& echarge, const ldouble& massu, const ldouble& massd, const ldouble& massW, const ldouble& sinW, const ldouble& widthW):
-    e(echarge), Qu(2.0/3.0), Qd(-1.0/3.0), mu(massu), md(massd), MW(massW), SW(sinW), WW(widthW) {
+    e(echarge), Qu(ldouble(2.0)/3.0), Qd(-ldouble(1.0)/3.0), mu(massu), md(massd), MW(massW), SW(sinW), WW(widthW) {
     //constexpr ldouble sqrt2 = std::sqrt(2);
     CW=std::sqrt(1.0-SW*SW);
     MZ=MW/CW;
@@ -56,7 +56,7 @@ namespace spinas {
     s341a= sproduct(SQUARE,&p3,&p4,&p1);
     s143a= sproduct(SQUARE,&p1,&p4,&p3);
     //prefactor
-    preud = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preud = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
     preW = preud/(MZ*MZ);
     gLu=-2.0*Qu*SW*SW+1.0;
     gRu=-2.0*Qu*SW*SW;
@@ -76,7 +76,7 @@ namespace spinas {
     propW.set_mass(MW);
     propu.set_mass(mu);
     propd.set_mass(md);
-    preud = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preud = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
     preW = preud/(MZ*MZ);
   }
   void WdZu::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
diff --git a/SM/ZnWe.cpp b/SM/ZnWe.cpp
index 5b72bf5..dc4a09b 100755
--- a/SM/ZnWe.cpp
+++ b/SM/ZnWe.cpp
@@ -56,9 +56,9 @@ namespace spinas {
     //[143>
     s143a=sproduct(SQUARE,&p1,&p4,&p3);
     //prefactor
-    preW = e*e/(std::sqrt(2.0)*MW*MW*MZ*MZ*SW*SW);
-    pree = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
-    pren = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preW = e*e/(std::sqrt(ldouble(2.0))*MW*MW*MZ*MZ*SW*SW);
+    pree = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
+    pren = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
     
     gL=two*SW*SW-one;
     gR=two*SW*SW;
@@ -74,9 +74,9 @@ namespace spinas {
     propW.set_mass(MW);
     prope.set_mass(me);
     //prefactors
-    preW = e*e/(std::sqrt(2.0)*MW*MW*MZ*MZ*SW*SW);
-    pree = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
-    pren = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preW = e*e/(std::sqrt(ldouble(2.0))*MW*MW*MZ*MZ*SW*SW);
+    pree = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
+    pren = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
   }
   void ZnWe::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     //Particles
diff --git a/SM/dAAd.cpp b/SM/dAAd.cpp
index dc51239..20de3c2 100755
--- a/SM/dAAd.cpp
+++ b/SM/dAAd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   dAAd::dAAd(const ldouble& echarge, const ldouble& massd):
-    e(echarge), Qd(-1.0/3.0), md(massd), prop(massd,0){
+    e(echarge), Qd(-ldouble(1.0)/3.0), md(massd), prop(massd,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(md);
diff --git a/SM/dAdh.cpp b/SM/dAdh.cpp
index f74c2f0..1004bdf 100755
--- a/SM/dAdh.cpp
+++ b/SM/dAdh.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   dAdh::dAdh(const ldouble& echarge, const ldouble& massd, const ldouble& massh, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qd(-1.0/3.0), md(massd), mh(massh), prop(massd,0), MW(massW), SW(sinW) {
+    e(echarge), Qd(-ldouble(1.0)/3.0), md(massd), mh(massh), prop(massd,0), MW(massW), SW(sinW) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(md);
diff --git a/SM/dAgd.cpp b/SM/dAgd.cpp
index 5d83838..8164042 100755
--- a/SM/dAgd.cpp
+++ b/SM/dAgd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   dAgd::dAgd(const ldouble& echarge, const ldouble& gscharge, const ldouble& massd):
-    e(echarge), Qd(-1.0/3.0), gs(gscharge), md(massd), prop(massd,0){
+    e(echarge), Qd(-ldouble(1.0)/3.0), gs(gscharge), md(massd), prop(massd,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(md);
diff --git a/SM/dWgu.cpp b/SM/dWgu.cpp
index 92d8ff9..e79020b 100755
--- a/SM/dWgu.cpp
+++ b/SM/dWgu.cpp
@@ -47,7 +47,7 @@ namespace spinas {
     a31a = sproduct(ANGLE,&p3,&p1);
     a3413a = sproduct(ANGLE,&p3,&p4,&p1,&p3);
     //prefactor
-    pre = std::sqrt(2.0)*e*gs/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*gs/(MW*SW);
   }
   void dWgu::set_masses(const ldouble& massu, const ldouble& massd, const ldouble& massW){
     //constexpr ldouble sqrt2 = std::sqrt(2);
@@ -59,7 +59,7 @@ namespace spinas {
     p4.set_mass(mu);
     propu.set_mass(mu);
     propd.set_mass(md);
-    pre = std::sqrt(2.0)*e*gs/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*gs/(MW*SW);
   }
   void dWgu::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     constexpr ldouble one=1;
diff --git a/SM/dZZd.cpp b/SM/dZZd.cpp
index 8ae11b5..070100b 100755
--- a/SM/dZZd.cpp
+++ b/SM/dZZd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   dZZd::dZZd(const ldouble& echarge, const ldouble& massf, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(-1.0/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
+    e(echarge), Qf(-ldouble(1.0)/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/dZdh.cpp b/SM/dZdh.cpp
index 9353d8e..68e0f49 100755
--- a/SM/dZdh.cpp
+++ b/SM/dZdh.cpp
@@ -54,8 +54,8 @@ namespace spinas {
     s241a = sproduct(SQUARE,&p2,&p4,&p1);
     //Couplings
     preTU = sqrt2*e*e*md/(4.0*MW*MW*SW*SW);
-    gL=2.0/3.0*SW*SW-1.0;
-    gR=2.0/3.0*SW*SW;
+    gL=ldouble(2.0)/3.0*SW*SW-1.0;
+    gR=ldouble(2.0)/3.0*SW*SW;
     preZ = sqrt2*e*e/(4.0*MW*MW*SW*SW);
   }
   void dZdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
diff --git a/SM/ddAA.cpp b/SM/ddAA.cpp
index 37a5735..2f850ca 100755
--- a/SM/ddAA.cpp
+++ b/SM/ddAA.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   ddAA::ddAA(const ldouble& echarge, const ldouble& massd):
-    e(echarge), Qd(-1.0/3.0), md(massd), prop(massd,0){
+    e(echarge), Qd(-ldouble(1.0)/3.0), md(massd), prop(massd,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(md);
diff --git a/SM/ddAh.cpp b/SM/ddAh.cpp
index 8659329..1a31aca 100755
--- a/SM/ddAh.cpp
+++ b/SM/ddAh.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   ddAh::ddAh(const ldouble& echarge, const ldouble& massd, const ldouble& massh, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qd(-1.0/3.0), md(massd), mh(massh), prop(massd,0), MW(massW), SW(sinW) {
+    e(echarge), Qd(-ldouble(1.0)/3.0), md(massd), mh(massh), prop(massd,0), MW(massW), SW(sinW) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(md);
diff --git a/SM/ddWW.cpp b/SM/ddWW.cpp
index 20a44ea..9219ce3 100755
--- a/SM/ddWW.cpp
+++ b/SM/ddWW.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   ddWW::ddWW(const ldouble& echarge, const ldouble& massd, const ldouble& massu, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(-1.0/3.0), md(massd), mu(massu), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propu(mu,0), propA(0,0) {
+    e(echarge), Qf(-ldouble(1.0)/3.0), md(massd), mu(massu), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propu(mu,0), propA(0,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/ddZZ.cpp b/SM/ddZZ.cpp
index da93c6d..7d962c2 100755
--- a/SM/ddZZ.cpp
+++ b/SM/ddZZ.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   ddZZ::ddZZ(const ldouble& echarge, const ldouble& massf, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(-1.0/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
+    e(echarge), Qf(-ldouble(1.0)/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/ddZh.cpp b/SM/ddZh.cpp
index 2fdbced..e7534c1 100755
--- a/SM/ddZh.cpp
+++ b/SM/ddZh.cpp
@@ -56,8 +56,8 @@ namespace spinas {
     s342a = sproduct(SQUARE,&p3,&p4,&p2);
     //Couplings
     preTU = sqrt2*e*e*md/(4.0*MW*MW*SW*SW);
-    gL=2.0/3.0*SW*SW-1.0;
-    gR=2.0/3.0*SW*SW;
+    gL=ldouble(2.0)/3.0*SW*SW-1.0;
+    gR=ldouble(2.0)/3.0*SW*SW;
     preZ = sqrt2*e*e/(4.0*MW*MW*SW*SW);
   }
   void ddZh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
diff --git a/SM/dddd.cpp b/SM/dddd.cpp
index 20397ae..e5fb6cc 100755
--- a/SM/dddd.cpp
+++ b/SM/dddd.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*md*md/(4.0*MW*MW*SW*SW);
-    gL=-1.0+2.0/3.0*SW*SW;
-    gR=2.0/3.0*SW*SW;
+    gL=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gR=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*md*md/MZ/MZ;//=preh!
   }
diff --git a/SM/dddd2.cpp b/SM/dddd2.cpp
index f211e2b..6ddd405 100755
--- a/SM/dddd2.cpp
+++ b/SM/dddd2.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*md*md/(4.0*MW*MW*SW*SW);
-    gL=-1.0+2.0/3.0*SW*SW;
-    gR=2.0/3.0*SW*SW;
+    gL=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gR=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*md*md/MZ/MZ;//=preh!
   }
diff --git a/SM/ddee.cpp b/SM/ddee.cpp
index bea8bc3..af431b5 100755
--- a/SM/ddee.cpp
+++ b/SM/ddee.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     gLe=-1.0+2.0*SW*SW;
     gRe=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/ddnn.cpp b/SM/ddnn.cpp
index d7935bc..9d93724 100755
--- a/SM/ddnn.cpp
+++ b/SM/ddnn.cpp
@@ -41,8 +41,8 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     gLn=1.0;
     gRn=0;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/ddss.cpp b/SM/ddss.cpp
index d0fa091..412473e 100755
--- a/SM/ddss.cpp
+++ b/SM/ddss.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
-    gL=-1.0+2.0/3.0*SW*SW;
-    gR=2.0/3.0*SW*SW;
+    gL=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gR=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*md*ms/MZ/MZ;//=preh!
   }
diff --git a/SM/deed.cpp b/SM/deed.cpp
index 56d0f02..68f94a8 100755
--- a/SM/deed.cpp
+++ b/SM/deed.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     gLe=-1.0+2.0*SW*SW;
     gRe=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/dggd.cpp b/SM/dggd.cpp
index 1bd359e..fd0d834 100755
--- a/SM/dggd.cpp
+++ b/SM/dggd.cpp
@@ -141,7 +141,7 @@ namespace spinas {
 	  for(int j4=-1;j4<=1;j4+=2){
 	    M_Num = amp_Num(j1,j2,j3,j4);
 	    //1<->3:  S<->U
-	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenU*pDenT,2)+6.0/std::pow(pDenU*pDenS,2)-2.0/3.0/std::pow(pDenT*pDenS,2));
+	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenU*pDenT,2)+6.0/std::pow(pDenU*pDenS,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenS,2));
 	  }
     //Average over initial spins 1/2*1/2=1/4
     //Average over initial colors 1/8*1/3=1/24
@@ -158,7 +158,7 @@ namespace spinas {
       for(int j3=-1;j3<=1;j3+=2)
 	for(int j4=-1;j4<=1;j4+=2){
 	  M_Num = amp_Num(j1,2,j3,j4);
-	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenU*pDenT,2)+6.0/std::pow(pDenU*pDenS,2)-2.0/3.0/std::pow(pDenT*pDenS,2));
+	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenU*pDenT,2)+6.0/std::pow(pDenU*pDenS,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenS,2));
 	}
     //Average over initial spins 1/2
     //Average over initial colors 1/3*1/8=1/24
@@ -175,7 +175,7 @@ namespace spinas {
       for(int j3=-1;j3<=1;j3+=2)
 	for(int j4=-1;j4<=1;j4+=2){
 	  M_Num = amp_Num(j1,-2,j3,j4);
-	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenU*pDenT,2)+6.0/std::pow(pDenU*pDenS,2)-2.0/3.0/std::pow(pDenT*pDenS,2));
+	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenU*pDenT,2)+6.0/std::pow(pDenU*pDenS,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenS,2));
 	}
     //Average over initial spins 1/2
     //Average over initial colors 1/3*1/8=1/24
diff --git a/SM/dnnd.cpp b/SM/dnnd.cpp
index b37cff6..6cbe85d 100755
--- a/SM/dnnd.cpp
+++ b/SM/dnnd.cpp
@@ -41,8 +41,8 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     gLn=1.0;
     gRn=0;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/dsds.cpp b/SM/dsds.cpp
index e114bba..006b701 100755
--- a/SM/dsds.cpp
+++ b/SM/dsds.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
-    gL=-1.0+2.0/3.0*SW*SW;
-    gR=2.0/3.0*SW*SW;
+    gL=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gR=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*md*ms/MZ/MZ;//=preh!
   }
diff --git a/SM/enAW.cpp b/SM/enAW.cpp
index 1c6912e..2e52926 100755
--- a/SM/enAW.cpp
+++ b/SM/enAW.cpp
@@ -50,7 +50,7 @@ namespace spinas {
     a34a = sproduct(ANGLE,&p3,&p4);
     s413a = sproduct(SQUARE,&p4,&p1,&p3);
     //prefactor
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void enAW::set_masses(const ldouble& masse, const ldouble& massW){
     //constexpr ldouble sqrt2 = std::sqrt(2);
@@ -60,7 +60,7 @@ namespace spinas {
     p4.set_mass(MW);
     propW.set_mass(MW);
     prope.set_mass(me);
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void enAW::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     //Particles
diff --git a/SM/enZW.cpp b/SM/enZW.cpp
index 99b64f1..ae8f72d 100755
--- a/SM/enZW.cpp
+++ b/SM/enZW.cpp
@@ -56,9 +56,9 @@ namespace spinas {
     //[314>
     s314a=sproduct(SQUARE,&p3,&p1,&p4);
     //prefactor
-    preW = e*e/(std::sqrt(2.0)*MW*MW*MZ*MZ*SW*SW);
-    pree = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
-    pren = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preW = e*e/(std::sqrt(ldouble(2.0))*MW*MW*MZ*MZ*SW*SW);
+    pree = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
+    pren = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
     
     gL=two*SW*SW-one;
     gR=two*SW*SW;
@@ -74,9 +74,9 @@ namespace spinas {
     propW.set_mass(MW);
     prope.set_mass(me);
     //prefactors
-    preW = e*e/(std::sqrt(2.0)*MW*MW*MZ*MZ*SW*SW);
-    pree = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
-    pren = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preW = e*e/(std::sqrt(ldouble(2.0))*MW*MW*MZ*MZ*SW*SW);
+    pree = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
+    pren = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
   }
   void enZW::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     //Particles
diff --git a/SM/gAdd.cpp b/SM/gAdd.cpp
index 32d0bd1..72401e0 100755
--- a/SM/gAdd.cpp
+++ b/SM/gAdd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   gAdd::gAdd(const ldouble& echarge, const ldouble& gscharge, const ldouble& massd):
-    e(echarge), Qd(-1.0/3.0), gs(gscharge), md(massd), prop(massd,0){
+    e(echarge), Qd(-ldouble(1.0)/3.0), gs(gscharge), md(massd), prop(massd,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(0);
diff --git a/SM/gAuu.cpp b/SM/gAuu.cpp
index a482dfa..20e4cdf 100755
--- a/SM/gAuu.cpp
+++ b/SM/gAuu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   gAuu::gAuu(const ldouble& echarge, const ldouble& gscharge, const ldouble& massu):
-    e(echarge), Qu(2.0/3.0), gs(gscharge), mu(massu), prop(massu,0){
+    e(echarge), Qu(ldouble(2.0)/3.0), gs(gscharge), mu(massu), prop(massu,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(0);
diff --git a/SM/gWud.cpp b/SM/gWud.cpp
index 797180e..be35e74 100755
--- a/SM/gWud.cpp
+++ b/SM/gWud.cpp
@@ -51,7 +51,7 @@ namespace spinas {
     s231a= sproduct(SQUARE,&p2,&p3,&p1);
     s431a= sproduct(SQUARE,&p4,&p3,&p1);
     //prefactor
-    pre = std::sqrt(2.0)*e*gs/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*gs/(MW*SW);
   }
   void gWud::set_masses(const ldouble& massu, const ldouble& massd, const ldouble& massW){
     //constexpr ldouble sqrt2 = std::sqrt(2);
@@ -63,7 +63,7 @@ namespace spinas {
     p4.set_mass(md);
     propu.set_mass(mu);
     propd.set_mass(md);
-    pre = std::sqrt(2.0)*e*gs/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*gs/(MW*SW);
   }
   void gWud::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     constexpr ldouble one=1;
diff --git a/SM/gZdd.cpp b/SM/gZdd.cpp
index 850f491..a0508ee 100755
--- a/SM/gZdd.cpp
+++ b/SM/gZdd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   gZdd::gZdd(const ldouble& echarge, const ldouble& gscharge, const ldouble& massd, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qd(-1.0/3.0), gs(gscharge), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), propd(massd,0) {
+    e(echarge), Qd(-ldouble(1.0)/3.0), gs(gscharge), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), propd(massd,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/gZuu.cpp b/SM/gZuu.cpp
index 1cb6f30..42a46ed 100755
--- a/SM/gZuu.cpp
+++ b/SM/gZuu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   gZuu::gZuu(const ldouble& echarge, const ldouble& gscharge, const ldouble& massu, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qu(2.0/3.0), gs(gscharge), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
+    e(echarge), Qu(ldouble(2.0)/3.0), gs(gscharge), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/gdZd.cpp b/SM/gdZd.cpp
index ddfdcaa..4f83bfb 100755
--- a/SM/gdZd.cpp
+++ b/SM/gdZd.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   gdZd::gdZd(const ldouble& echarge, const ldouble& gscharge, const ldouble& massd, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qd(-1.0/3.0), gs(gscharge), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), propd(massd,0) {
+    e(echarge), Qd(-ldouble(1.0)/3.0), gs(gscharge), md(massd), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), propd(massd,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/ggdd.cpp b/SM/ggdd.cpp
index 67b2dc4..0b68007 100755
--- a/SM/ggdd.cpp
+++ b/SM/ggdd.cpp
@@ -133,7 +133,7 @@ namespace spinas {
   //This assumes massless quarks (up quark here)
   ldouble ggdd::amp2_Feynman(){
     ldouble pre = gs*gs*gs*gs;
-    constexpr ldouble oneSixth=1.0/6.0, threeEights = 3.0/8.0;
+    constexpr ldouble oneSixth=ldouble(1.0)/6.0, threeEights = 3.0/8.0;
     cdouble M2 =  pre*(pDenT*pDenT+pDenU*pDenU)*(oneSixth/pDenT/pDenU - threeEights/pDenS/pDenS);
     return std::abs(M2);
   }
@@ -150,7 +150,7 @@ namespace spinas {
 	for(int j3=-1;j3<=1;j3+=2)
 	  for(int j4=-1;j4<=1;j4+=2){
 	    M_Num = amp_Num(j1,j2,j3,j4);
-	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-2.0/3.0/std::pow(pDenT*pDenU,2));
+	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenU,2));
 	  }
     //Average over initial spins 1/2*1/2=1/4
     //Average over initial colors 1/8*1/8=1/64
@@ -166,7 +166,7 @@ namespace spinas {
     for(int j3=-1;j3<=1;j3+=2)
       for(int j4=-1;j4<=1;j4+=2){
 	M_Num = amp_Num(2,2,j3,j4);
-	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-2.0/3.0/std::pow(pDenT*pDenU,2));
+	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenU,2));
       }
     //Average over initial colors 1/8*1/8=1/64
     return amp2/64.0;
@@ -181,7 +181,7 @@ namespace spinas {
     for(int j3=-1;j3<=1;j3+=2)
       for(int j4=-1;j4<=1;j4+=2){
 	M_Num = amp_Num(2,-2,j3,j4);
-	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-2.0/3.0/std::pow(pDenT*pDenU,2));
+	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenU,2));
       }
     //Average over initial colors 1/8*1/8=1/64
     return amp2/64.0;
diff --git a/SM/gguu.cpp b/SM/gguu.cpp
index 8309c9f..d556808 100755
--- a/SM/gguu.cpp
+++ b/SM/gguu.cpp
@@ -132,7 +132,7 @@ namespace spinas {
   //But, with very small quark masses, we might get close.
   ldouble gguu::amp2_Feynman(){
     ldouble pre = gs*gs*gs*gs;
-    ldouble oneSixth=1.0/6.0, threeEights = 3.0/8.0;
+    ldouble oneSixth=ldouble(1.0)/6.0, threeEights = 3.0/8.0;
     cdouble M2 =  pre*(pDenT*pDenT+pDenU*pDenU)*(oneSixth/pDenT/pDenU - threeEights/pDenS/pDenS);
     return std::abs(M2);
   }
@@ -149,7 +149,7 @@ namespace spinas {
 	for(int j3=-1;j3<=1;j3+=2)
 	  for(int j4=-1;j4<=1;j4+=2){
 	    M_Num = amp_Num(j1,j2,j3,j4);
-	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-2.0/3.0/std::pow(pDenT*pDenU,2));
+	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenU,2));
 	  }
     //Average over initial spins 1/2*1/2=1/4
     //Average over initial colors 1/8*1/8=1/64
@@ -165,7 +165,7 @@ namespace spinas {
     for(int j3=-1;j3<=1;j3+=2)
       for(int j4=-1;j4<=1;j4+=2){
 	M_Num = amp_Num(2,2,j3,j4);
-	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-2.0/3.0/std::pow(pDenT*pDenU,2));
+	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenU,2));
       }
     //Average over initial colors 1/8*1/8=1/64
     return amp2/64.0;
@@ -180,7 +180,7 @@ namespace spinas {
     for(int j3=-1;j3<=1;j3+=2)
       for(int j4=-1;j4<=1;j4+=2){
 	M_Num = amp_Num(2,-2,j3,j4);
-	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-2.0/3.0/std::pow(pDenT*pDenU,2));
+	amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenS*pDenT,2)+6.0/std::pow(pDenS*pDenU,2)-ldouble(2.0)/3.0/std::pow(pDenT*pDenU,2));
       }
     //Average over initial colors 1/8*1/8=1/64
     return amp2/64.0;
diff --git a/SM/guAu.cpp b/SM/guAu.cpp
index 0557876..ffe7b70 100755
--- a/SM/guAu.cpp
+++ b/SM/guAu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   guAu::guAu(const ldouble& echarge, const ldouble& gscharge, const ldouble& massu):
-    e(echarge), Qu(2.0/3.0), gs(gscharge), mu(massu), prop(massu,0){
+    e(echarge), Qu(ldouble(2.0)/3.0), gs(gscharge), mu(massu), prop(massu,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(0);
diff --git a/SM/guZu.cpp b/SM/guZu.cpp
index 4e806c4..ec08d96 100755
--- a/SM/guZu.cpp
+++ b/SM/guZu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   guZu::guZu(const ldouble& echarge, const ldouble& gscharge, const ldouble& massu, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qu(2.0/3.0), gs(gscharge), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
+    e(echarge), Qu(ldouble(2.0)/3.0), gs(gscharge), mu(massu), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), prope(massu,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/gugu.cpp b/SM/gugu.cpp
index 89c855e..94d2546 100755
--- a/SM/gugu.cpp
+++ b/SM/gugu.cpp
@@ -136,7 +136,7 @@ namespace spinas {
 	for(int j3=-2;j3<=2;j3+=4)
 	  for(int j4=-1;j4<=1;j4+=2){
 	    M_Num = amp_Num(j1,j2,j3,j4);
-	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenT*pDenU,2)+6.0/std::pow(pDenT*pDenS,2)-2.0/3.0/std::pow(pDenU*pDenS,2));
+	    amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenT*pDenU,2)+6.0/std::pow(pDenT*pDenS,2)-ldouble(2.0)/3.0/std::pow(pDenU*pDenS,2));
 	  }
     //Average over initial spins 1/2*1/2=1/4
     //Average over initial colors 1/8*1/3=1/24
@@ -153,7 +153,7 @@ namespace spinas {
       for(int j3=-2;j3<=2;j3+=4)
 	for(int j4=-1;j4<=1;j4+=2){
 	  M_Num = amp_Num(2,j2,j3,j4);
-	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenT*pDenU,2)+6.0/std::pow(pDenT*pDenS,2)-2.0/3.0/std::pow(pDenU*pDenS,2));
+	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenT*pDenU,2)+6.0/std::pow(pDenT*pDenS,2)-ldouble(2.0)/3.0/std::pow(pDenU*pDenS,2));
 	}
     //Average over initial spins 1/2
     //Average over initial colors 1/8*1/3=1/24
@@ -170,7 +170,7 @@ namespace spinas {
       for(int j3=-2;j3<=2;j3+=4)
 	for(int j4=-1;j4<=1;j4+=2){
 	  M_Num = amp_Num(-2,j2,j3,j4);
-	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenT*pDenU,2)+6.0/std::pow(pDenT*pDenS,2)-2.0/3.0/std::pow(pDenU*pDenS,2));
+	  amp2 += std::pow(std::abs(M_Num),2)*(6.0/std::pow(pDenT*pDenU,2)+6.0/std::pow(pDenT*pDenS,2)-ldouble(2.0)/3.0/std::pow(pDenU*pDenS,2));
 	}
     //Average over initial spins 1/2
     //Average over initial colors 1/8*1/3=1/24
diff --git a/SM/uAAu.cpp b/SM/uAAu.cpp
index 08d45cd..c33987b 100755
--- a/SM/uAAu.cpp
+++ b/SM/uAAu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uAAu::uAAu(const ldouble& echarge, const ldouble& massu):
-    e(echarge), Qu(2.0/3.0), mu(massu), prop(massu,0){
+    e(echarge), Qu(ldouble(2.0)/3.0), mu(massu), prop(massu,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(mu);
diff --git a/SM/uAuh.cpp b/SM/uAuh.cpp
index 2b83998..013f68a 100755
--- a/SM/uAuh.cpp
+++ b/SM/uAuh.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uAuh::uAuh(const ldouble& echarge, const ldouble& massu, const ldouble& massh, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qu(2.0/3.0), mu(massu), mh(massh), prop(massu,0), MW(massW), SW(sinW) {
+    e(echarge), Qu(ldouble(2.0)/3.0), mu(massu), mh(massh), prop(massu,0), MW(massW), SW(sinW) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(mu);
diff --git a/SM/uWWu.cpp b/SM/uWWu.cpp
index 40b8e1c..3770262 100755
--- a/SM/uWWu.cpp
+++ b/SM/uWWu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uWWu::uWWu(const ldouble& echarge, const ldouble& massu, const ldouble& massd, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(2.0/3.0), mu(massu), md(massd), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propd(md,0), propA(0,0) {
+    e(echarge), Qf(ldouble(2.0)/3.0), mu(massu), md(massd), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propd(md,0), propA(0,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/uZZu.cpp b/SM/uZZu.cpp
index 3609f63..7bc3629 100755
--- a/SM/uZZu.cpp
+++ b/SM/uZZu.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uZZu::uZZu(const ldouble& echarge, const ldouble& massf, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(2.0/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
+    e(echarge), Qf(ldouble(2.0)/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/uZuh.cpp b/SM/uZuh.cpp
index 4ccdac3..2c34961 100755
--- a/SM/uZuh.cpp
+++ b/SM/uZuh.cpp
@@ -54,8 +54,8 @@ namespace spinas {
     s241a = sproduct(SQUARE,&p2,&p4,&p1);
     //Couplings
     preTU = sqrt2*e*e*mu/(4.0*MW*MW*SW*SW);
-    gL=-4.0/3.0*SW*SW+1.0;
-    gR=-4.0/3.0*SW*SW;
+    gL=-ldouble(4.0)/3.0*SW*SW+1.0;
+    gR=-ldouble(4.0)/3.0*SW*SW;
     preZ = sqrt2*e*e/(4.0*MW*MW*SW*SW);
   }
   void uZuh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
diff --git a/SM/ucuc.cpp b/SM/ucuc.cpp
index 30063fb..46b0830 100755
--- a/SM/ucuc.cpp
+++ b/SM/ucuc.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
-    gL=1.0-4.0/3.0*SW*SW;
-    gR=-4.0/3.0*SW*SW;
+    gL=1.0-ldouble(4.0)/3.0*SW*SW;
+    gR=-ldouble(4.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*mu*mc/MZ/MZ;//=preh!
     //std::cout<<"preZ0="<<preZ0<<std::endl;
diff --git a/SM/udAW.cpp b/SM/udAW.cpp
index 58e5e2e..b1ff5fb 100755
--- a/SM/udAW.cpp
+++ b/SM/udAW.cpp
@@ -49,7 +49,7 @@ namespace spinas {
     a34a = sproduct(ANGLE,&p3,&p4);
     a32a = sproduct(ANGLE,&p3,&p2);
     //prefactor
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void udAW::set_masses(const ldouble& massu, const ldouble& massd, const ldouble& massW){
     //constexpr ldouble sqrt2 = std::sqrt(2);
@@ -62,7 +62,7 @@ namespace spinas {
     propW.set_mass(MW);
     propu.set_mass(mu);
     propd.set_mass(md);
-    pre = std::sqrt(2.0)*e*e/(MW*SW);
+    pre = std::sqrt(ldouble(2.0))*e*e/(MW*SW);
   }
   void udAW::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
     constexpr ldouble one=1, two=2, three=3;
diff --git a/SM/udZW.cpp b/SM/udZW.cpp
index 719acf5..3458587 100755
--- a/SM/udZW.cpp
+++ b/SM/udZW.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   udZW::udZW(const ldouble& echarge, const ldouble& massu, const ldouble& massd, const ldouble& massW, const ldouble& sinW, const ldouble& widthW):
-    e(echarge), Qu(2.0/3.0), Qd(-1.0/3.0), mu(massu), md(massd), MW(massW), SW(sinW), WW(widthW) {
+    e(echarge), Qu(ldouble(2.0)/3.0), Qd(-ldouble(1.0)/3.0), mu(massu), md(massd), MW(massW), SW(sinW), WW(widthW) {
     //constexpr ldouble sqrt2 = std::sqrt(2);
     CW=std::sqrt(1.0-SW*SW);
     MZ=MW/CW;
@@ -56,7 +56,7 @@ namespace spinas {
     s314a= sproduct(SQUARE,&p3,&p1,&p4);
     s413a= sproduct(SQUARE,&p4,&p1,&p3);
     //prefactor
-    preud = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preud = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
     preW = preud/(MZ*MZ);
     gLu=-2.0*Qu*SW*SW+1.0;
     gRu=-2.0*Qu*SW*SW;
@@ -76,7 +76,7 @@ namespace spinas {
     propW.set_mass(MW);
     propu.set_mass(mu);
     propd.set_mass(md);
-    preud = e*e/(std::sqrt(2.0)*MW*MW*SW*SW);
+    preud = e*e/(std::sqrt(ldouble(2.0))*MW*MW*SW*SW);
     preW = preud/(MZ*MZ);
   }
   void udZW::set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]){
diff --git a/SM/udud.cpp b/SM/udud.cpp
index 9833847..3348844 100755
--- a/SM/udud.cpp
+++ b/SM/udud.cpp
@@ -51,10 +51,10 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gLu-gRu)*(gLd-gRd)*mu*md/MZ/MZ;//=-preh!
     preW = e*e/(2.0*MW*MW*SW*SW);
diff --git a/SM/ueeu.cpp b/SM/ueeu.cpp
index cdd08a8..44c047b 100755
--- a/SM/ueeu.cpp
+++ b/SM/ueeu.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
     gLe=-1.0+2.0*SW*SW;
     gRe=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/unnu.cpp b/SM/unnu.cpp
index 4eb40df..6556da8 100755
--- a/SM/unnu.cpp
+++ b/SM/unnu.cpp
@@ -49,8 +49,8 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
     gLn=1.0;
     gRn=0;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/usus.cpp b/SM/usus.cpp
index 5300e25..c131bb7 100755
--- a/SM/usus.cpp
+++ b/SM/usus.cpp
@@ -51,10 +51,10 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gLu-gRu)*(gLd-gRd)*mu*ms/MZ/MZ;//=-preh!
   }
diff --git a/SM/uuAA.cpp b/SM/uuAA.cpp
index 5e40e28..5cab6ae 100755
--- a/SM/uuAA.cpp
+++ b/SM/uuAA.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uuAA::uuAA(const ldouble& echarge, const ldouble& massu):
-    e(echarge), Qu(2.0/3.0), mu(massu), prop(massu,0){
+    e(echarge), Qu(ldouble(2.0)/3.0), mu(massu), prop(massu,0){
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(mu);
diff --git a/SM/uuAh.cpp b/SM/uuAh.cpp
index 0cee944..465b27f 100755
--- a/SM/uuAh.cpp
+++ b/SM/uuAh.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uuAh::uuAh(const ldouble& echarge, const ldouble& massu, const ldouble& massh, const ldouble& massW, const ldouble& sinW):
-    e(echarge), Qu(2.0/3.0), mu(massu), mh(massh), prop(massu,0), MW(massW), SW(sinW) {
+    e(echarge), Qu(ldouble(2.0)/3.0), mu(massu), mh(massh), prop(massu,0), MW(massW), SW(sinW) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     p1=particle(mu);
diff --git a/SM/uuWW.cpp b/SM/uuWW.cpp
index f9bcb93..8272908 100755
--- a/SM/uuWW.cpp
+++ b/SM/uuWW.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uuWW::uuWW(const ldouble& echarge, const ldouble& massu, const ldouble& massd, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(2.0/3.0), mu(massu), md(massd), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propd(md,0), propA(0,0) {
+    e(echarge), Qf(ldouble(2.0)/3.0), mu(massu), md(massd), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propd(md,0), propA(0,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/uuZZ.cpp b/SM/uuZZ.cpp
index ea29ae5..3a4d882 100755
--- a/SM/uuZZ.cpp
+++ b/SM/uuZZ.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   uuZZ::uuZZ(const ldouble& echarge, const ldouble& massf, const ldouble& massh, const ldouble& widthh, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), Qf(2.0/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
+    e(echarge), Qf(ldouble(2.0)/3.0), mf(massf), mh(massh), wh(widthh), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), propf(massf,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/uuZh.cpp b/SM/uuZh.cpp
index 27f5d4a..76dffee 100755
--- a/SM/uuZh.cpp
+++ b/SM/uuZh.cpp
@@ -56,8 +56,8 @@ namespace spinas {
     s342a = sproduct(SQUARE,&p3,&p4,&p2);
     //Couplings
     preTU = sqrt2*e*e*mu/(4.0*MW*MW*SW*SW);
-    gL=-4.0/3.0*SW*SW+1.0;
-    gR=-4.0/3.0*SW*SW;
+    gL=-ldouble(4.0)/3.0*SW*SW+1.0;
+    gR=-ldouble(4.0)/3.0*SW*SW;
     preZ = sqrt2*e*e/(4.0*MW*MW*SW*SW);
   }
   void uuZh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
diff --git a/SM/uucc.cpp b/SM/uucc.cpp
index 22b9288..5dee496 100755
--- a/SM/uucc.cpp
+++ b/SM/uucc.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
-    gL=1.0-4.0/3.0*SW*SW;
-    gR=-4.0/3.0*SW*SW;
+    gL=1.0-ldouble(4.0)/3.0*SW*SW;
+    gR=-ldouble(4.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*mu*mc/MZ/MZ;//=preh!
   }
diff --git a/SM/uudd.cpp b/SM/uudd.cpp
index 3cabdf4..c17b582 100755
--- a/SM/uudd.cpp
+++ b/SM/uudd.cpp
@@ -51,10 +51,10 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gLu-gRu)*(gLd-gRd)*mu*md/MZ/MZ;//=-preh!
   }
diff --git a/SM/uuee.cpp b/SM/uuee.cpp
index 0aa6a2e..1727d7c 100755
--- a/SM/uuee.cpp
+++ b/SM/uuee.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
     gLe=-1.0+2.0*SW*SW;
     gRe=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/uuhh.cpp b/SM/uuhh.cpp
index 09b44b1..b9a3527 100755
--- a/SM/uuhh.cpp
+++ b/SM/uuhh.cpp
@@ -39,12 +39,12 @@ namespace spinas {
     s132a(sproduct(SQUARE,&p1,&p3,&p2)),
     s231a(sproduct(SQUARE,&p2,&p3,&p1))
   {
-    ldouble sqrt2 = std::sqrt(2);
+    ldouble sqrt2 = std::sqrt(ldouble(2));
     prehS = 3.0*e*e*mu*mh*mh/(4.0*MW*MW*SW*SW);
     prehTU = e*e*mu*mu/(4.0*MW*MW*SW*SW);
   }
   void uuhh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
-    ldouble sqrt2 = std::sqrt(2);
+    ldouble sqrt2 = std::sqrt(ldouble(2));
     mu=massu;
     propu.set_mass(mu);
     mh=massh;
diff --git a/SM/uunn.cpp b/SM/uunn.cpp
index 689ed44..de11e93 100755
--- a/SM/uunn.cpp
+++ b/SM/uunn.cpp
@@ -49,8 +49,8 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
     gLn=1.0;
     gRn=0;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/uuss.cpp b/SM/uuss.cpp
index 1571220..e369120 100755
--- a/SM/uuss.cpp
+++ b/SM/uuss.cpp
@@ -51,10 +51,10 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
-    gLu=1.0-4.0/3.0*SW*SW;
-    gRu=-4.0/3.0*SW*SW;
-    gLd=-1.0+2.0/3.0*SW*SW;
-    gRd=2.0/3.0*SW*SW;
+    gLu=1.0-ldouble(4.0)/3.0*SW*SW;
+    gRu=-ldouble(4.0)/3.0*SW*SW;
+    gLd=-1.0+ldouble(2.0)/3.0*SW*SW;
+    gRd=ldouble(2.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gLu-gRu)*(gLd-gRd)*mu*ms/MZ/MZ;//=-preh!
   }
diff --git a/SM/uuuu.cpp b/SM/uuuu.cpp
index a1d690b..623ed51 100755
--- a/SM/uuuu.cpp
+++ b/SM/uuuu.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
-    gL=1.0-4.0/3.0*SW*SW;
-    gR=-4.0/3.0*SW*SW;
+    gL=1.0-ldouble(4.0)/3.0*SW*SW;
+    gR=-ldouble(4.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*mu*mu/MZ/MZ;//=preh!
   }
diff --git a/SM/uuuu2.cpp b/SM/uuuu2.cpp
index 136938f..0a44676 100755
--- a/SM/uuuu2.cpp
+++ b/SM/uuuu2.cpp
@@ -51,8 +51,8 @@ namespace spinas {
     MZ=MW/CW;
     propZ = propagator(MZ,WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
-    gL=1.0-4.0/3.0*SW*SW;
-    gR=-4.0/3.0*SW*SW;
+    gL=1.0-ldouble(4.0)/3.0*SW*SW;
+    gR=-ldouble(4.0)/3.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
     preZ0 = preZ*(gL-gR)*(gL-gR)*mu*mu/MZ/MZ;//=preh!
   }
diff --git a/source/process.cpp b/source/process.cpp
index 8a84007..e1fcadb 100755
--- a/source/process.cpp
+++ b/source/process.cpp
@@ -105,7 +105,7 @@ namespace spinas {
     ldouble normFactor = 1;
     //constexpr ldouble sqrt2=std::sqrt(2.0);
     for(int i=0;i<length;i++)
-      if(dsList[i]==0) normFactor /= std::sqrt(2.0);
+      if(dsList[i]==0) normFactor /= std::sqrt(ldouble(2.0));
     return normFactor;
   }
   //Spinor Spins
-- 
2.43.0


From 63af807f748bfe43203bacb7bbadb4c38bebfa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:02 +0000
Subject: [PATCH 15/16] fix: let the helicities of four W processes refer to
 the documented particles

menn, udnl, ulnd and WdWd had angle and square brackets exchanged, so that
right-handed particles and left-handed antiparticles coupled to the W.  The
spin sums do not change.
---
 SM/WdWd.cpp       | 112 +++++++++++++++++++++++-----------------------
 SM/include/WdWd.h |   8 ++--
 SM/include/menn.h |   2 +-
 SM/include/udnl.h |   4 +-
 SM/include/ulnd.h |   4 +-
 SM/menn.cpp       |  24 +++++-----
 SM/udnl.cpp       |  26 +++++------
 SM/ulnd.cpp       |  30 ++++++-------
 8 files changed, 105 insertions(+), 105 deletions(-)

diff --git a/SM/WdWd.cpp b/SM/WdWd.cpp
index 045599a..299ca33 100755
--- a/SM/WdWd.cpp
+++ b/SM/WdWd.cpp
@@ -40,24 +40,24 @@ namespace spinas {
     p2=particle(md);
     p3=particle(MW);
     p4=particle(md);
-    //<12>,[12],<23>,[23],<13>,[13],<34>,[34],<24>,[24],<14>,[14]
-    s12s = sproduct(SQUARE,&p1,&p2);
+    //[12],<12>,[23],<23>,[13],<13>,[34],<34>,[24],<24>,[14],<14>
     a12a = sproduct(ANGLE,&p1,&p2);
-    s23s = sproduct(SQUARE,&p2,&p3);
+    s12s = sproduct(SQUARE,&p1,&p2);
     a23a = sproduct(ANGLE,&p2,&p3);
-    s13s = sproduct(SQUARE,&p1,&p3);
+    s23s = sproduct(SQUARE,&p2,&p3);
     a13a = sproduct(ANGLE,&p1,&p3);
-    s34s = sproduct(SQUARE,&p3,&p4);
+    s13s = sproduct(SQUARE,&p1,&p3);
     a34a = sproduct(ANGLE,&p3,&p4);
-    s24s = sproduct(SQUARE,&p2,&p4);
+    s34s = sproduct(SQUARE,&p3,&p4);
     a24a = sproduct(ANGLE,&p2,&p4);
-    s14s = sproduct(SQUARE,&p1,&p4);
+    s24s = sproduct(SQUARE,&p2,&p4);
     a14a = sproduct(ANGLE,&p1,&p4);
-    //[143>,[341>,[234>,[432>
-    s143a = sproduct(SQUARE,&p1,&p4,&p3);
-    s341a = sproduct(SQUARE,&p3,&p4,&p1);
-    s234a = sproduct(SQUARE,&p2,&p3,&p4);
-    s432a = sproduct(SQUARE,&p4,&p3,&p2);
+    s14s = sproduct(SQUARE,&p1,&p4);
+    //<143],<341],<234],<432]
+    a143s = sproduct(ANGLE,&p1,&p4,&p3);
+    a341s = sproduct(ANGLE,&p3,&p4,&p1);
+    a234s = sproduct(ANGLE,&p2,&p3,&p4);
+    a432s = sproduct(ANGLE,&p4,&p3,&p2);
     //Couplings
     pred = 2.0*e*e/(2.0*MW*MW*SW*SW);
     preh = 2.0*e*e*md/(4.0*MW*MW*SW*SW);
@@ -89,24 +89,24 @@ namespace spinas {
     p2.set_momentum(mom2);
     p3.set_momentum(mom3);
     p4.set_momentum(mom4);
-    //<12>,[12],<23>,[23],<13>,[13],<34>,[34],<24>,[24],<14>,[14]
-    s12s.update();
+    //[12],<12>,[23],<23>,[13],<13>,[34],<34>,[24],<24>,[14],<14>
     a12a.update();
-    s23s.update();
+    s12s.update();
     a23a.update();
-    s13s.update();
+    s23s.update();
     a13a.update();
-    s34s.update();
+    s13s.update();
     a34a.update();
-    s24s.update();
+    s34s.update();
     a24a.update();
-    s14s.update();
+    s24s.update();
     a14a.update();
-    //[143>,[341>,[234>,[432>
-    s143a.update();
-    s341a.update();
-    s234a.update();
-    s432a.update();
+    s14s.update();
+    //<143],<341],<234],<432]
+    a143s.update();
+    a341s.update();
+    a234s.update();
+    a432s.update();
     //Propagator Momentum
     ldouble propSP[4], propTP[4], propUP[4];
     for(int j=0;j<4;j++){
@@ -139,65 +139,65 @@ namespace spinas {
       //S-Channel h
       //preh = e*e*md/(4.0*MW*MW*SW*SW);
       //DdW-W+ all ingoing: 
-      //+ preh [34] <34> ([12]+<12>)/(s-Mh^2)
+      //+ preh <34> [34] (<12>+[12])/(s-Mh^2)
       //W+dW-D: 1<->4
-      //- preh [13] <13> ([24]+<24>)/(t-Mh^2)
+      //- preh <13> [13] (<24>+[24])/(t-Mh^2)
       //34 out:
-      //+ preh [13] <13> ([24]-<24>)/(t-Mh^2)
-      amplitude += normFactor*preh*s13s.v(ds1a,ds3a)*a13a.v(ds1b,ds3b)*(s24s.v(ds2,ds4)-a24a.v(ds2,ds4))/pDenhT;
+      //+ preh <13> [13] (<24>-[24])/(t-Mh^2)
+      amplitude += normFactor*preh*a13a.v(ds1a,ds3a)*s13s.v(ds1b,ds3b)*(a24a.v(ds2,ds4)-s24s.v(ds2,ds4))/pDenhT;
       
       //T-Channel u
       //pred = e*e/(2.0*MW*MW*SW*SW);
       //DdW-W+ all ingoing:
-      //- pred [24] <13> ([314>+MW <34>))/t
+      //- pred <24> [13] (<314]+MW [34]))/t
       //W+dW-D: 1<->4
-      //- pred [12] <34> ([341>-MW <13>))/s
+      //- pred <12> [34] (<341]-MW [13]))/s
       //34 out:
-      //+ pred [12] <34> ([341>-MW <13>))/s
-      amplitude += + normFactor*pred*s12s.v(ds1a,ds2)*a34a.v(ds3a,ds4)*(-MW*a13a.v(ds1b,ds3b)+s341a.v(ds3b,ds1b))/pDendS;
+      //+ pred <12> [34] (<341]-MW [13]))/s
+      amplitude += + normFactor*pred*a12a.v(ds1a,ds2)*s34s.v(ds3a,ds4)*(-MW*s13s.v(ds1b,ds3b)+a341s.v(ds3b,ds1b))/pDendS;
 
       //S-Channel A
       //DdW-W+ all in:
-      //+ 2e^2/MW*( <13>[24] + [13]<24> + <14>[23] + [14]<23> )( <34> + [34] )/s
-      //+ 2e^2/MW/MW*[34]<34>([231>+[132>)/s
+      //+ 2e^2/MW*( [13]<24> + <13>[24] + [14]<23> + <14>[23] )( [34] + <34> )/s
+      //+ 2e^2/MW/MW*<34>[34](<231]+<132])/s
       //W+dW-D: 1<->4
-      //- 2e^2/MW*( <34>[12] + [34]<12> - <14>[23] - [14]<23> )( <13> + [13] )/t
-      //+ 2e^2/MW/MW*[13]<13>([234>+[432>)/t
+      //- 2e^2/MW*( [34]<12> + <34>[12] - [14]<23> - <14>[23] )( [13] + <13> )/t
+      //+ 2e^2/MW/MW*<13>[13](<234]+<432])/t
       //34 out:
-      //- 2e^2/MW*( <34>[12] + [34]<12> + <14>[23] + [14]<23> )(-<13> + [13] )/t
-      //- 2e^2/MW/MW*[13]<13>([234>-[432>)/t
+      //- 2e^2/MW*( [34]<12> + <34>[12] + [14]<23> + <14>[23] )(-[13] + <13> )/t
+      //- 2e^2/MW/MW*<13>[13](<234]-<432])/t
       amplitude +=
 	- normFactor*e*e*Qf*two/MW*(
-				a34a.v(ds3a,ds4)*s12s.v(ds1a,ds2) + s34s.v(ds3a,ds4)*a12a.v(ds1a,ds2)
-				+ a14a.v(ds1a,ds4)*s23s.v(ds2,ds3a) + s14s.v(ds1a,ds4)*a23a.v(ds2,ds3a)
-				)*(s13s.v(ds1b,ds3b)-a13a.v(ds1b,ds3b))/pDenAT
+				s34s.v(ds3a,ds4)*a12a.v(ds1a,ds2) + a34a.v(ds3a,ds4)*s12s.v(ds1a,ds2)
+				+ s14s.v(ds1a,ds4)*a23a.v(ds2,ds3a) + a14a.v(ds1a,ds4)*s23s.v(ds2,ds3a)
+				)*(a13a.v(ds1b,ds3b)-s13s.v(ds1b,ds3b))/pDenAT
 	- normFactor*e*e*Qf*two/MW/MW*(
-				s13s.v(ds1a,ds3a)*a13a.v(ds1b,ds3b)*(s234a.v(ds2,ds4)-s432a.v(ds4,ds2))
+				a13a.v(ds1a,ds3a)*s13s.v(ds1b,ds3b)*(a234s.v(ds2,ds4)-a432s.v(ds4,ds2))
 				)/pDenAT;
       
       //S-Channel Z
       //preZ = e*e/(2.0*MW*MW*SW*SW); //=pred
       //DdW-W+ all ingoing:
-      //+ preZ ( (gL-gR)md[34]<34>([12]-<12>)
-      //          + 2[34]<34>(gL[231>+gR[132>)
-      //          + 2MW([34]+<34>)( gL([23]<14>+[24]<13>) + gR([13]<24>+[14]<23>) )
+      //+ preZ ( (gL-gR)md<34>[34](<12>-[12])
+      //          + 2<34>[34](gL<231]+gR<132])
+      //          + 2MW(<34>+[34])( gL(<23>[14]+<24>[13]) + gR(<13>[24]+<14>[23]) )
       //        )/(s-MZ^2)
       //W+dW-D: 1<->4
-      //+ preZ (-(gL-gR)md[13]<13>([24]-<24>)
-      //          + 2[13]<13>(gL[234>+gR[432>)
-      //          - 2MW([13]+<13>)( gL(-[23]<14>+[12]<34>) + gR([34]<12>-[14]<23>) )
+      //+ preZ (-(gL-gR)md<13>[13](<24>-[24])
+      //          + 2<13>[13](gL<234]+gR<432])
+      //          - 2MW(<13>+[13])( gL(-<23>[14]+<12>[34]) + gR(<34>[12]-<14>[23]) )
       //        )/(t-MZ^2)
       //34 out:
-      //+ preZ (+(gL-gR)md[13]<13>([24]+<24>)
-      //          - 2[13]<13>(gL[234>-gR[432>)
-      //          - 2MW([13]-<13>)( gL([23]<14>+[12]<34>) + gR([34]<12>+[14]<23>) )
+      //+ preZ (+(gL-gR)md<13>[13](<24>+[24])
+      //          - 2<13>[13](gL<234]-gR<432])
+      //          - 2MW(<13>-[13])( gL(<23>[14]+<12>[34]) + gR(<34>[12]+<14>[23]) )
       //        )/(t-MZ^2)
       amplitude += + normFactor*preZ*(
-				      + (gL-gR)*md*s13s.v(ds1a,ds3a)*a13a.v(ds1b,ds3b)*(s24s.v(ds2,ds4)+a24a.v(ds2,ds4))
-				      - two*s13s.v(ds1a,ds3a)*a13a.v(ds1b,ds3b)*(gL*s234a.v(ds2,ds4)-gR*s432a.v(ds4,ds2))
-				      - two*MW*(s13s.v(ds1a,ds3a)-a13a.v(ds1a,ds3a))*(
-										      + gL*(s23s.v(ds2,ds3b)*a14a.v(ds1b,ds4)+s12s.v(ds1b,ds2)*a34a.v(ds3b,ds4))
-										      + gR*(s34s.v(ds3b,ds4)*a12a.v(ds1b,ds2)+s14s.v(ds1b,ds4)*a23a.v(ds2,ds3b))
+				      + (gL-gR)*md*a13a.v(ds1a,ds3a)*s13s.v(ds1b,ds3b)*(a24a.v(ds2,ds4)+s24s.v(ds2,ds4))
+				      - two*a13a.v(ds1a,ds3a)*s13s.v(ds1b,ds3b)*(gL*a234s.v(ds2,ds4)-gR*a432s.v(ds4,ds2))
+				      - two*MW*(a13a.v(ds1a,ds3a)-s13s.v(ds1a,ds3a))*(
+										      + gL*(a23a.v(ds2,ds3b)*s14s.v(ds1b,ds4)+a12a.v(ds1b,ds2)*s34s.v(ds3b,ds4))
+										      + gR*(a34a.v(ds3b,ds4)*s12s.v(ds1b,ds2)+a14a.v(ds1b,ds4)*s23s.v(ds2,ds3b))
 										      )
 				       )/pDenZT;
       
diff --git a/SM/include/WdWd.h b/SM/include/WdWd.h
index c8bef06..dca7175 100755
--- a/SM/include/WdWd.h
+++ b/SM/include/WdWd.h
@@ -28,10 +28,10 @@ namespace spinas {
     particle p1,p2,p3,p4;
     propagator proph, propu, propZ, propA;
     cdouble pDenhT, pDendS, pDendU, pDenZT, pDenAT;
-    //<12>,[12],<23>,[23],<13>,[13],<34>,[34],<24>,[24],<14>,[14]
-    sproduct s12s, a12a, s23s, a23a, s13s, a13a, s34s, a34a, s24s, a24a, s14s, a14a;
-    //[143>,[341>,[234>,[432>
-    sproduct s143a, s341a, s234a, s432a;
+    //[12],<12>,[23],<23>,[13],<13>,[34],<34>,[24],<24>,[14],<14>
+    sproduct a12a, s12s, a23a, s23s, a13a, s13s, a34a, s34s, a24a, s24s, a14a, s14s;
+    //<143],<341],<234],<432]
+    sproduct a143s, a341s, a234s, a432s;
     ldouble sqrt2;
     ldouble pred, preh, preZ, gL, gR;
 
diff --git a/SM/include/menn.h b/SM/include/menn.h
index 0c99ee1..f79dd86 100755
--- a/SM/include/menn.h
+++ b/SM/include/menn.h
@@ -28,7 +28,7 @@ namespace spinas {
     particle p1,p2,p3,p4;
     propagator prop;
     cdouble pDenU;
-    sproduct s24s, a13a, s14s, a23a;
+    sproduct a24a, s13s, a14a, s23s;
 
     
   public:
diff --git a/SM/include/udnl.h b/SM/include/udnl.h
index de44b1c..d7485b8 100755
--- a/SM/include/udnl.h
+++ b/SM/include/udnl.h
@@ -28,8 +28,8 @@ namespace spinas {
     particle p1,p2,p3,p4;
     propagator prop;
     cdouble pDenS;
-    //[14], <23>, <34>, [12], <12>
-    sproduct s14s, a23a, a34a, s12s, a12a;
+    //<14>, [23], [34], <12>, [12]
+    sproduct a14a, s23s, s34s, a12a, s12s;
 
     
   public:
diff --git a/SM/include/ulnd.h b/SM/include/ulnd.h
index 1f1dcd8..3ec6c82 100755
--- a/SM/include/ulnd.h
+++ b/SM/include/ulnd.h
@@ -29,8 +29,8 @@ namespace spinas {
     particle p1,p2,p3,p4;
     propagator prop;
     cdouble pDenU;
-    //[14], <23>, <34>, [12], <12>
-    sproduct a14a, s14s, a23a, a34a, s12s, a12a;
+    //<14>, [23], [34], <12>, [12]
+    sproduct s14s, a14a, s23s, s34s, a12a, s12s;
 
     
   public:
diff --git a/SM/menn.cpp b/SM/menn.cpp
index 427fcc1..83dc456 100755
--- a/SM/menn.cpp
+++ b/SM/menn.cpp
@@ -33,11 +33,11 @@ namespace spinas {
     e(echarge), me(masse), mm(massmu), MW(massW), WW(widthW), SW(sinW), prop(massW,widthW),
     p1(particle(mm)), p2(particle(me)),
     p3(particle(0)), p4(particle(0)),
-    //[24], ⟨13⟩, [14], ⟨23⟩
-    s24s(sproduct(SQUARE,&p2,&p4)),
-    a13a(sproduct(ANGLE,&p1,&p3)),
-    s14s(sproduct(SQUARE,&p1,&p4)),
-    a23a(sproduct(ANGLE,&p2,&p3))
+    //<24>, [13], <14>, [23]
+    a24a(sproduct(ANGLE,&p2,&p4)),
+    s13s(sproduct(SQUARE,&p1,&p3)),
+    a14a(sproduct(ANGLE,&p1,&p4)),
+    s23s(sproduct(SQUARE,&p2,&p3))
   {}
   void menn::set_masses(const ldouble& masse, const ldouble& massmu, const ldouble& massW){
     me=masse;
@@ -55,10 +55,10 @@ namespace spinas {
     p2.set_momentum(mom2);
     p3.set_momentum(mom3);
     p4.set_momentum(mom4);
-    s24s.update();
-    a13a.update();
-    s14s.update();
-    a23a.update();
+    a24a.update();
+    s13s.update();
+    a14a.update();
+    s23s.update();
     //Propagator Momentum
     ldouble propP[4];
     for(int j=0;j<4;j++)
@@ -70,10 +70,10 @@ namespace spinas {
   //Amplitude
   //set_momenta(...) must be called before amp(...).
   cdouble menn::amp(const int& ds1, const int& ds2){
-    //All ingoing: -(2MW^2 [24]⟨13⟩ + mμme[14]⟨23⟩)/ (2MW^2 (u−MW^2))
+    //All ingoing: -(2MW^2 <24>[13] + mμme<14>[23])/ (2MW^2 (u−MW^2))
     //Sign changes due to p3 and p4 being outgoing.
-    // (2MW^2 [24]⟨13⟩ + mμme[14]⟨23⟩)/ (2MW^2 (u−MW^2))
-    return e*e/2.0/SW/SW*(2.0*MW*MW*s24s.v(ds2)*a13a.v(ds1) + mm*me*s14s.v(ds1)*a23a.v(ds2))/(MW*MW*pDenU);
+    // (2MW^2 <24>[13] + mμme<14>[23])/ (2MW^2 (u−MW^2))
+    return e*e/2.0/SW/SW*(2.0*MW*MW*a24a.v(ds2)*s13s.v(ds1) + mm*me*a14a.v(ds1)*s23s.v(ds2))/(MW*MW*pDenU);
   }
   
   //set_momenta(...) must be called before amp2().
diff --git a/SM/udnl.cpp b/SM/udnl.cpp
index 598472b..9d6293d 100755
--- a/SM/udnl.cpp
+++ b/SM/udnl.cpp
@@ -33,12 +33,12 @@ namespace spinas {
     e(echarge), mu(massu), md(massd), ml(masstau), MW(massW), WW(widthW), SW(sinW), prop(massW,widthW),
     p1(particle(mu)), p2(particle(md)),
     p3(particle(0)), p4(particle(ml)),
-    //[14], <23>, <34>, [12], <12>
-    s14s(sproduct(SQUARE,&p1,&p4)),
-    a23a(sproduct(ANGLE,&p2,&p3)),
-    s12s(sproduct(SQUARE,&p1,&p2)),
+    //<14>, [23], [34], <12>, [12]
+    a14a(sproduct(ANGLE,&p1,&p4)),
+    s23s(sproduct(SQUARE,&p2,&p3)),
     a12a(sproduct(ANGLE,&p1,&p2)),
-    a34a(sproduct(ANGLE,&p3,&p4))
+    s12s(sproduct(SQUARE,&p1,&p2)),
+    s34s(sproduct(SQUARE,&p3,&p4))
   {}
   void udnl::set_masses(const ldouble& massu, const ldouble& massd, const ldouble& masstau, const ldouble& massW){
     mu=massu;
@@ -57,11 +57,11 @@ namespace spinas {
     p2.set_momentum(mom2);
     p3.set_momentum(mom3);
     p4.set_momentum(mom4);
-    s14s.update();
-    a23a.update();
-    s12s.update();
+    a14a.update();
+    s23s.update();
     a12a.update();
-    a34a.update();
+    s12s.update();
+    s34s.update();
     //Propagator Momentum
     ldouble propPS[4];
     for(int j=0;j<4;j++){
@@ -74,11 +74,11 @@ namespace spinas {
   //Amplitude
   //set_momenta(...) must be called before amp(...).
   cdouble udnl::amp(const int& ds1, const int& ds2, const int& ds4){
-    //All ingoing: (2MW^2 [14]<23> + mlmu<34><12> - mlmd<34>[12])/ (2MW^2 (s−MW^2))
+    //All ingoing: (2MW^2 <14>[23] + mlmu[34][12] - mlmd[34]<12>)/ (2MW^2 (s−MW^2))
     //Sign changes due to p3 and p4 being outgoing.
-    // - (2MW^2 <14>[23] - mlmu<34>[12] + mlmd<34><12>)/ (2MW^2 (s−MW^2))
-    return e*e/2.0/SW/SW*(  2.0*MW*MW*s14s.v(ds1,ds4)*a23a.v(ds2)
-			  + ml*md*a34a.v(ds4)*s12s.v(ds1,ds2) - mu*ml*a12a.v(ds1,ds2)*a34a.v(ds4)
+    // (2MW^2 <14>[23] + mlmd[34]<12> - mlmu[34][12])/ (2MW^2 (s−MW^2))
+    return e*e/2.0/SW/SW*(  2.0*MW*MW*a14a.v(ds1,ds4)*s23s.v(ds2)
+			  + ml*md*s34s.v(ds4)*a12a.v(ds1,ds2) - mu*ml*s12s.v(ds1,ds2)*s34s.v(ds4)
 			  )/(MW*MW*pDenS);
   }
   
diff --git a/SM/ulnd.cpp b/SM/ulnd.cpp
index 26b5c5c..a9f26e4 100755
--- a/SM/ulnd.cpp
+++ b/SM/ulnd.cpp
@@ -33,13 +33,13 @@ namespace spinas {
     e(echarge), mu(massu), md(massd), ml(masstau), MW(massW), WW(widthW), SW(sinW), prop(massW,widthW),
     p1(particle(mu)), p2(particle(ml)),
     p3(particle(0)), p4(particle(md)),
-    //[14], <23>, <34>, [12], <12>
-    a14a(sproduct(ANGLE,&p1,&p4)),
+    //<14>, [23], [34], <12>, [12]
     s14s(sproduct(SQUARE,&p1,&p4)),
-    a23a(sproduct(ANGLE,&p2,&p3)),
-    s12s(sproduct(SQUARE,&p1,&p2)),
+    a14a(sproduct(ANGLE,&p1,&p4)),
+    s23s(sproduct(SQUARE,&p2,&p3)),
     a12a(sproduct(ANGLE,&p1,&p2)),
-    a34a(sproduct(ANGLE,&p3,&p4))
+    s12s(sproduct(SQUARE,&p1,&p2)),
+    s34s(sproduct(SQUARE,&p3,&p4))
   {
     preW = e*e/(4.0*MW*MW*SW*SW);
   }
@@ -60,12 +60,12 @@ namespace spinas {
     p2.set_momentum(mom2);
     p3.set_momentum(mom3);
     p4.set_momentum(mom4);
-    a14a.update();
     s14s.update();
-    a23a.update();
-    s12s.update();
+    a14a.update();
+    s23s.update();
     a12a.update();
-    a34a.update();
+    s12s.update();
+    s34s.update();
     //Propagator Momentum
     ldouble propP[4];
     for(int j=0;j<4;j++){
@@ -80,15 +80,15 @@ namespace spinas {
   cdouble ulnd::amp(const int& ds1, const int& ds2, const int& ds4){
     //preW = e*e/(4.0*MW*MW*SW*SW);
     //uDnlL all ingoing:
-    //+ preW ( 2MW^2 [14]<23> + mlmu<34><12> - mlmd<34>[12] )/(s−MW^2)
+    //+ preW ( 2MW^2 <14>[23] + mlmu[34][12] - mlmd[34]<12> )/(s−MW^2)
     //uLNlD: 2<->4
-    //+ preW (- 2MW^2 [12]<34> - mlmu<23><14> + mlmd<23>[14] )/(u−MW^2)
+    //+ preW (- 2MW^2 <12>[34] - mlmu[23][14] + mlmd[23]<14> )/(u−MW^2)
     //34 out:
-    //- preW ( 2MW^2 [12]<34> + mlmu<23><14> + mlmd<23>[14] )/(u−MW^2)
+    //- preW ( 2MW^2 <12>[34] + mlmu[23][14] + mlmd[23]<14> )/(u−MW^2)
     return - preW*2.0*(
-		       + 2.0*MW*MW*s12s.v(ds1,ds2)*a34a.v(ds4)
-		       + mu*ml*a23a.v(ds2)*a14a.v(ds1,ds4)
-		       + ml*md*a23a.v(ds2)*s14s.v(ds1,ds4)
+		       + 2.0*MW*MW*a12a.v(ds1,ds2)*s34s.v(ds4)
+		       + mu*ml*s23s.v(ds2)*s14s.v(ds1,ds4)
+		       + ml*md*s23s.v(ds2)*a14a.v(ds1,ds4)
 		       )/pDenU;
   }
   
-- 
2.43.0


From 899d19c72782e3a8bd09d119435dd5d7d1b5d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:02 +0000
Subject: [PATCH 16/16] fix: take the spins of nWWn::amp in the order of the
 legs

---
 SM/include/nWWn.h | 2 +-
 SM/nWWn.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SM/include/nWWn.h b/SM/include/nWWn.h
index c80a3c4..737fd0e 100755
--- a/SM/include/nWWn.h
+++ b/SM/include/nWWn.h
@@ -46,7 +46,7 @@ namespace spinas {
     void set_momenta(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]);
 
     //Amplitude
-    cdouble amp(const int& ds3, const int& ds4);//Double the spins
+    cdouble amp(const int& ds2, const int& ds3);//Double the spins
     ldouble amp2();
     ldouble amp2(const ldouble mom1[4], const ldouble mom2[4], const ldouble mom3[4], const ldouble mom4[4]);
     
diff --git a/SM/nWWn.cpp b/SM/nWWn.cpp
index 944a5b9..06e98f9 100755
--- a/SM/nWWn.cpp
+++ b/SM/nWWn.cpp
@@ -94,7 +94,7 @@ namespace spinas {
   
   //Amplitude
   //set_momenta(...) must be called before amp(...).
-  cdouble nWWn::amp(const int& ds3, const int& ds2){//Double Spin
+  cdouble nWWn::amp(const int& ds2, const int& ds3){//Double Spin
     cdouble amplitude(0,0);
     int ds3a, ds3b, ds2a, ds2b;
     constexpr ldouble two=2;
-- 
2.43.0

