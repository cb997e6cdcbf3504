From bbf9eb77775348a001794d83dfa64a30eac97631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:49 +0000
Subject: [PATCH 01/32] fix: keep the value function at the right boundary of
 Hermite elements when no boundary condition is requested

HIPBasisT::drop_last(false, false) removed the value interpolant of the
last node; the higher-order Hermite bases drop nothing in that case.
---
 libhelfem/include/HIPBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/include/HIPBasis.h b/libhelfem/include/HIPBasis.h
index 8c34c75..d387894 100644
--- a/libhelfem/include/HIPBasis.h
+++ b/libhelfem/include/HIPBasis.h
@@ -71,7 +71,7 @@ class HIPBasisT : public LIPBasisT<T> {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 2).eval();
     } else if (deriv) {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 1).eval();
-    } else {
+    } else if (func) {
       IVec new_enabled(this->enabled.size() - 1);
       new_enabled.segment(0, this->enabled.size() - 2)
           = this->enabled.segment(0, this->enabled.size() - 2);
-- 
2.43.0


From 89ee428bb9b98d9f8b6539cb53e10aad798bf39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 02/32] fix: end the finite-nucleus radial grid at rmax

The grid consists of two nuclear segments of length rnuc followed by the
electronic one, so the latter covers rmax-2*rnuc; with rmax-rnuc the grid
extended to rmax+rnuc.
---
 src/atomic/basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 31dece3..4fee907 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -58,8 +58,8 @@ namespace helfem {
         if(num_el_nuc) {
           // Grid for the finite nucleus
           helfem::Vector bnuc(utils::get_grid(rnuc,num_el_nuc,igrid_nuc,zexp_nuc));
-          // and the one for the electrons
-          helfem::Vector belec(utils::get_grid(rmax-rnuc,num_el,igrid,zexp));
+          // and the one for the electrons, which starts at 2*rnuc
+          helfem::Vector belec(utils::get_grid(rmax-2*rnuc,num_el,igrid,zexp));
 
           helfem::Vector bnucel(concatenate_grid(bnuc,bnuc));
           return concatenate_grid(bnucel,belec);
-- 
2.43.0


From bad2fe4a8f76464a98201f2714f025a149d58209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:37 +0000
Subject: [PATCH 03/32] fix: skip divergent weights at the origin in
 cross-basis matrix elements

The Gauss-Lobatto rule samples r=0, where a Coulombic weight is infinite
and the basis functions vanish, so the first-element block of e.g. the
nuclear attraction between two bases came out as NaN.
---
 libhelfem/src/RadialBasis.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..3987918 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -404,8 +404,13 @@ namespace helfem {
 
                   helfem::Vec<T> wtot = wproj * intlen;
                   if (weight)
-                    for (Eigen::Index i = 0; i < r.size(); ++i)
-                      wtot(i) *= weight(r(i));
+                    for (Eigen::Index i = 0; i < r.size(); ++i) {
+                      // The Lobatto rule samples r = 0, where e.g. a Coulombic
+                      // weight diverges but the basis functions vanish; skip
+                      // the node as in FiniteElementBasisT::matrix_element.
+                      const T fv = weight(r(i));
+                      wtot(i) = std::isfinite(fv) ? (wtot(i) * fv) : T(0);
+                    }
 
                   const helfem::Mat<T> ifunc = eval_B_at<T>(fem,    xi, iel, bra);
                   const helfem::Mat<T> jfunc = eval_B_at<T>(rh.fem, xj, jel, ket);
-- 
2.43.0


From c097633b8b7e6b4cab069186f18016d8856bc8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:37 +0000
Subject: [PATCH 04/32] fix: do not shift the volume element in polynomial
 confinement

The potential is ((r-shift)/r_0)^N; the r^2 factor that comes from the
B(r)/r representation is the volume element and must stay r^2.
---
 libhelfem/src/RadialBasis.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 3987918..9799bec 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -506,10 +506,12 @@ namespace helfem {
         // The r < shift_pot cutoff is a kink at r = shift_pot; split the
         // element there so each smooth sub-panel converges by order-refinement.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
+                              // The r^2 factor belongs to the volume element of
+                              // the R0 functions and is not shifted.
                               [N, shift_pot](T r) {
-                                return (r < shift_pot)
-                                    ? T(0)
-                                    : std::pow(r - shift_pot, N + 2);
+                                if (r < shift_pot) return T(0);
+                                if (shift_pot == T(0)) return std::pow(r, N + 2);
+                                return std::pow(r - shift_pot, N) * r * r;
                               },
                               std::vector<T>{shift_pot}, -1);
       }
-- 
2.43.0


From 9cbbc750e6f39a5d1a42078f8daae039ed5b970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:14 +0000
Subject: [PATCH 05/32] fix: off-by-one in the lookup of GSZ parameters

The table lists d_Z for Z=1,2,3,... but was indexed by Z, so every element
got the parameter of the next one and Z=103 read past the end.
---
 src/general/gsz.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index a77c686..d5d8558 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -21,13 +21,14 @@ static const double d_Z_GSZ[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0
 namespace helfem {
   namespace GSZ {
     void GSZ_parameters(int Z, double & d, double & H) {
-      if((size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
+      // The table starts from hydrogen
+      if(Z<1 || (size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
 	std::ostringstream oss;
 	oss << "No GSZ parameters for Z = " << Z << "!\n";
 	throw std::logic_error(oss.str());
       }
 
-      d=d_Z_GSZ[Z];
+      d=d_Z_GSZ[Z-1];
       H=d*std::pow(Z-1,0.4);
     }
 
-- 
2.43.0


From e12e85ecb8eff77c16f508c78d5e817d018790cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:04 +0000
Subject: [PATCH 06/32] fix: integrate cut-off confinement potentials only
 beyond the cutoff

The auto-converging Gauss-Lobatto rule samples the panel ends, so the
barrier (and the N=0 polynomial) potential, which is discontinuous at the
cutoff radius, leaked into the region below it and converged only
algebraically up to the order cap.
---
 libhelfem/src/RadialBasis.cpp | 41 ++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 9799bec..a852fa6 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -501,19 +501,31 @@ namespace helfem {
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::nuclear(size_t iel) const { return -matrix_element(iel, BasisKind::R0, BasisKind::R0, kRWeight<T>()); }
 
+      // Matrix element of a potential that is zero for r < shift. Only the part
+      // of the element beyond the cutoff is integrated: the Gauss-Lobatto rule
+      // samples the panel ends, so a weight that is discontinuous at the cutoff
+      // would leak into the panel on the other side of it.
+      template <typename T>
+      static helfem::Mat<T> element_beyond(const FEMRadialBasisT<T> & rb, size_t iel,
+                                           typename FEMRadialBasisT<T>::BasisKind k,
+                                           const std::function<T(T)> & weight, T shift) {
+        const polynomial_basis::FiniteElementBasisT<T> & fem = rb.get_fem();
+        if (shift >= fem.element_end(iel))
+          return helfem::Mat<T>::Zero(rb.Nprim(iel), rb.Nprim(iel));
+        const T x_left = (shift <= fem.element_begin(iel)) ? T(-1)
+            : (shift - fem.element_midpoint(iel)) / fem.scaling_factor(iel);
+        return rb.matrix_element(iel, k, k, weight, x_left, T(1));
+      }
+
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::polynomial_confinement(size_t iel, int N, T shift_pot) const {
-        // The r < shift_pot cutoff is a kink at r = shift_pot; split the
-        // element there so each smooth sub-panel converges by order-refinement.
-        return matrix_element(iel, BasisKind::R0, BasisKind::R0,
-                              // The r^2 factor belongs to the volume element of
-                              // the R0 functions and is not shifted.
-                              [N, shift_pot](T r) {
-                                if (r < shift_pot) return T(0);
-                                if (shift_pot == T(0)) return std::pow(r, N + 2);
-                                return std::pow(r - shift_pot, N) * r * r;
-                              },
-                              std::vector<T>{shift_pot}, -1);
+        // The r^2 factor belongs to the volume element of the R0 functions
+        // and is not shifted.
+        return element_beyond<T>(*this, iel, BasisKind::R0,
+                                 [N, shift_pot](T r) {
+                                   if (shift_pot == T(0)) return std::pow(r, N + 2);
+                                   return std::pow(r - shift_pot, N) * r * r;
+                                 }, shift_pot);
       }
 
       template <typename T>
@@ -540,12 +552,7 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::barrier_confinement(size_t iel, T V, T shift_pot) const {
-        // Step at r = shift_pot -> breakpoint.
-        return matrix_element(iel, BasisKind::B0, BasisKind::B0,
-                              [V, shift_pot](T r) {
-                                return (r < shift_pot) ? T(0) : V;
-                              },
-                              std::vector<T>{shift_pot}, -1);
+        return element_beyond<T>(*this, iel, BasisKind::B0, [V](T) { return V; }, shift_pot);
       }
 
       template <typename T>
-- 
2.43.0


From a3066403bd835466a90c6e5d623493be351fd712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:32 +0000
Subject: [PATCH 07/32] fix: use the second radial derivative in the GGA
 screening potential

The chain rule for d/dr of v_sigma*grad involves rho'', but the full
Laplacian was used and the 2/r part of the divergence was then added a
second time; the mixed sigma derivative terms were counted twice.
---
 src/general/atomdb.cpp |  6 ++++--
 src/sadatom/basis.cpp  | 11 ++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 6c8fc3b..9732086 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -347,7 +347,9 @@ namespace helfem {
       double sigma[3] = {0.0, 0.0, 0.0};
       if (xc_->any_gga) {
         grad[0] = grad[1] = 0.5 * density_gradient(r);
-        lapl[0] = lapl[1] = 0.5 * density_laplacian(r);
+        // Only the second radial derivative enters the chain rule; the
+        // 2/r piece of the divergence is added separately below.
+        lapl[0] = lapl[1] = 0.5 * (density_laplacian(r) - 2.0 * density_gradient(r) / r);
         // Reduced gradients, in libxc's (aa, ab, bb) order.
         sigma[0] = grad[0] * grad[0];
         sigma[1] = grad[0] * grad[1];
@@ -395,7 +397,7 @@ namespace helfem {
         corr[1] += (grad[0] * v2rhosigma[1] + grad[1] * v2rhosigma[4]) * grad[0];
 
         // (l(t) g(t') + g(t) l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
-        const double lg = lapl[0] * grad[1] + grad[0] * lapl[1];
+        const double lg = 0.5 * (lapl[0] * grad[1] + grad[0] * lapl[1]);
         const double d2Edsaa = lapl[0] * grad[0] * v2sigma2[0] + lg * v2sigma2[1] +
                                lapl[1] * grad[1] * v2sigma2[2];
         const double d2Edsab = lapl[0] * grad[0] * v2sigma2[1] + lg * v2sigma2[3] +
diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a6fd2de..a8727ae 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1035,6 +1035,11 @@ namespace helfem {
         // Radial coordinates
         helfem::Vector r(radii());
         size_t Npoints(r.size());
+        // Only the second radial derivative enters the chain rule below;
+        // the 2/r piece of the divergence is added separately. The
+        // nucleus is skipped in the GGA correction.
+        lapla.tail(Npoints-1).array() -= 2.0*grada.tail(Npoints-1).array()/r.tail(Npoints-1).array();
+        laplb.tail(Npoints-1).array() -= 2.0*gradb.tail(Npoints-1).array()/r.tail(Npoints-1).array();
 
         // and pack it for libxc. Store directly in transposed layout so
         // the column-major order is (na0, nb0, na1, nb1, ...).
@@ -1145,9 +1150,9 @@ namespace helfem {
 
           for(size_t ip=1;ip<Npoints;ip++) {
             // Second term: (l(t)g(t') + g(t)l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
-            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
-            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
-            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
+            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
+            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
+            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + 0.5*(lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
             // and now we can contract this with the gradient
             corr(0,ip) += 4.0*d2Edsaa*grada(ip) + 2.0*d2Edsab*gradb(ip);
             corr(1,ip) += 4.0*d2Edsbb*gradb(ip) + 2.0*d2Edsab*grada(ip);
-- 
2.43.0


From fe5f35ea685317c2039d0b97b5ce8f70daee0bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:31 +0000
Subject: [PATCH 08/32] fix: correct the negative binomial coefficients in the
 short-range erfc expansion

---
 libhelfem/src/erfc_expn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/src/erfc_expn.cpp b/libhelfem/src/erfc_expn.cpp
index b938487..3ba23d1 100644
--- a/libhelfem/src/erfc_expn.cpp
+++ b/libhelfem/src/erfc_expn.cpp
@@ -79,7 +79,7 @@ namespace helfem {
 
         // Negative binomials
         if(n<0) {
-          return choose<T>(n+m-1,m)*std::pow(T(-1),m);
+          return choose<T>(m-n-1,m)*std::pow(T(-1),m);
         } else {
           // Multiplicative formula keeps the running value as a T
           // and avoids any factorial overflow for large n.
-- 
2.43.0


From 161c7ee0dd6becb121ddcdce0ead523ade1671cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:40 +0000
Subject: [PATCH 09/32] fix: include the gradient term of Laplacian-only
 functionals in polarized atomic Fock matrices

---
 src/atomic/dftgrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index ff7e7ae..648fdad 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -418,7 +418,7 @@ namespace helfem {
         }
 
 
-        if(do_mgga_t) {
+        if(do_mgga_t || do_mgga_l) {
           helfem::Vector vtl_a=helfem::Vector::Zero(wtot.size());
           if(do_mgga_t)
             vtl_a += 0.5*vtau.row(0).transpose();
-- 
2.43.0


From 463e95deea9ed8c7f6f0494eb98b4347621216c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:40 +0000
Subject: [PATCH 10/32] fix: skip the beta Laplacian term when no beta Fock
 matrix is requested

---
 src/atomic/dftgrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index 648fdad..fa10cea 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -452,7 +452,8 @@ namespace helfem {
           helfem::Vector vl_a=vlapl.row(0).transpose().array()*wtot.array();
           helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
           helfem::dftgrid_common::increment_mgga_lapl_split(Ha,vl_a,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
-          helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          if(beta)
+            helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
         }
 
         for(size_t i=0;i<bf_ind.size();i++)
-- 
2.43.0


From 1861f583b538d53942ecaeeb5eae7a37d8d1325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:34 +0000
Subject: [PATCH 11/32] fix: mirror exchange-correlation blocks only between
 equal lists of l

The m and -m blocks were paired by size only, so a basis whose +m and -m
shells list different l values (or the same in another order) received the
potential of the wrong functions in the -m block.
---
 src/diatomic/dftgrid_purem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diatomic/dftgrid_purem.cpp b/src/diatomic/dftgrid_purem.cpp
index 9772acb..3b571de 100644
--- a/src/diatomic/dftgrid_purem.cpp
+++ b/src/diatomic/dftgrid_purem.cpp
@@ -466,7 +466,7 @@ namespace helfem {
       // quadrature, not of the state.
       size_t PureMDFTGridWorker::mirror_block(size_t im) const {
         for (size_t jm = 0; jm < mlist.size(); jm++)
-          if (mlist[jm] == -mlist[im] && bf_ind_m[jm].size() == bf_ind_m[im].size())
+          if (mlist[jm] == -mlist[im] && lval_m[jm] == lval_m[im])
             return jm;
         return mlist.size();
       }
-- 
2.43.0


From 8148c3d3490fe5d010c6b916741184dce219cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 12/32] fix: bisect the van der Waals radius on the density
 threshold

The bisection compared the density with the convergence threshold of the
search instead of the requested density, so that the returned radius was
the outer end of the search bracket.
---
 src/sadatom/basis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a8727ae..344e1a0 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -840,11 +840,11 @@ namespace helfem {
             helfem::Vector m = a + (b-a)/2.0;
             double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
 
-            if(density_m < eps) {
+            if(density_m < vdw_threshold) {
               b = m;
-            } else if(density_m > eps) {
+            } else if(density_m > vdw_threshold) {
               a = m;
-            } else if(density_m == eps)
+            } else
               break;
 
             ibisect++;
-- 
2.43.0


From 590ea23ded3694c2148dcd2766261ed4dc4acc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 13/32] fix: find the van der Waals radius next to an element
 boundary

When the density crosses the threshold between the inner edge of an
element and its first quadrature point, the search stopped at the
previous element and returned the element boundary.
---
 src/sadatom/basis.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 344e1a0..07517d4 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -792,9 +792,12 @@ namespace helfem {
         // Evaluate the density in each quadrature point and take
         // their maximum
         size_t iel;
+        // The quadrature points do not include the element boundary, so
+        // the density at the inner edge of the element is checked as well
+        const helfem::Vector inner_edge(helfem::Vector::Constant(1, -1.0));
         for(iel=radial.Nel()-1;iel<radial.Nel();iel--) {
           helfem::Vector den(angfac*electron_density(iel, Prad, rsqweight));
-          if(den.maxCoeff()>vdw_threshold) {
+          if(den.maxCoeff()>vdw_threshold || angfac*electron_density(inner_edge, iel, Prad, rsqweight)(0)>vdw_threshold) {
             // We found the element
             break;
           }
-- 
2.43.0


From 86302731a3374c8a287dcf993a99190397eb1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 14/32] fix: save the densities of both +m and -m orbitals
 under --symmetry=3

---
 src/diatomic/main.cpp           |  2 +-
 src/general/scf_driver_common.h | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 9ed9424..defa4d9 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -659,7 +659,7 @@ int main(int argc, char **argv) {
     const auto final_occs = scfsolver.get_orbital_occupations();
     helfem::Matrix Pa_final, Pb_final;
     std::tie(Pa_final, Pb_final) = helfem::scf_driver::assemble_final_density<OOO_Real>(
-        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs);
+        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs, &dmirror);
     // Densities written straight through the checkpoint's helfem::Matrix overloads.
     savechk.write("Pa", Pa_final);
     savechk.write("Pb", Pb_final);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index a2ac755..c15f70d 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -259,14 +259,16 @@ namespace helfem {
     /// matrices from OOO's converged per-block orbitals + occupations.
     /// Restricted case: orbs[k] carries the closed-shell density
     /// (max occ 2); alpha and beta both get half of it. Unrestricted:
-    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym).
+    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym). dmirror lists
+    /// the -|m| partners of the blocks under the diatomic |m| symmetry.
     template <typename Real>
     inline std::pair<helfem::Matrix, helfem::Matrix> assemble_final_density(
         size_t Nbf, bool restricted,
         const std::vector<std::vector<Eigen::Index>> & dsym,
         const std::vector<helfem::Matrix> & Sinvh,
         const OpenOrbitalOptimizer::Orbitals<Real> & final_orbs,
-        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs) {
+        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs,
+        const std::vector<std::vector<Eigen::Index>> * dmirror = nullptr) {
       const size_t nsym = dsym.size();
       const Eigen::Index N = static_cast<Eigen::Index>(Nbf);
       helfem::Matrix Pa_final = helfem::Matrix::Zero(N, N);
@@ -274,18 +276,27 @@ namespace helfem {
       for (size_t k = 0; k < nsym; ++k) {
         if (dsym[k].empty()) continue;
         const std::vector<Eigen::Index> & idx = dsym[k];
+        // A mirrored block shares its occupation with its -|m| partner
+        const bool paired = (dmirror != nullptr && !(*dmirror)[k].empty());
+        const double share = paired ? 0.5 : 1.0;
         const helfem::Matrix orb_a_ao = Sinvh[k] * final_orbs[k];
-        const helfem::Vector occ_a    = final_occs[k];
+        const helfem::Vector occ_a    = share * final_occs[k];
         if (restricted) {
           const helfem::Matrix P_block = 0.5 * (orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
           Pa_final(idx, idx) += P_block;
           Pb_final(idx, idx) += P_block;
         } else {
           const helfem::Matrix orb_b_ao = Sinvh[k] * final_orbs[nsym + k];
-          const helfem::Vector occ_b    = final_occs[nsym + k];
+          const helfem::Vector occ_b    = share * final_occs[nsym + k];
           Pa_final(idx, idx) += orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
           Pb_final(idx, idx) += orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
         }
+        if (paired) {
+          const std::vector<Eigen::Index> & mir = (*dmirror)[k];
+          const helfem::Matrix Pa_block = Pa_final(idx, idx), Pb_block = Pb_final(idx, idx);
+          Pa_final(mir, mir) += Pa_block;
+          Pb_final(mir, mir) += Pb_block;
+        }
       }
       return {Pa_final, Pb_final};
     }
-- 
2.43.0


From 5c8bd7c178da29490af6604678d4363cc390d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 15/32] fix: relax --symmetry=3 to per-m blocks in a magnetic
 field

---
 src/diatomic/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index defa4d9..026b1bd 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -237,6 +237,11 @@ int main(int argc, char **argv) {
     printf("Warning - asked for full orbital symmetry in presence of magnetic field. Relaxing restriction.\n");
     symm = 1;
   }
+  // symm=3 pairs +m with -m, which the orbital Zeeman term splits.
+  if (symm == 3 && Bz != 0.0) {
+    printf("Warning - asked for +-m degeneracy in presence of magnetic field. Relaxing restriction.\n");
+    symm = 1;
+  }
 
   diatomic::basis::TwoDBasis basis(Z1, Z2, Rhalf, poly, Nquad, bval, lval, mval);
   const size_t Nbf = basis.Nbf();
-- 
2.43.0


From 912452516108088c3a6087c580c09b0c558df88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 16/32] fix: no spin Zeeman energy in spin-restricted
 calculations

---
 src/atomic/main.cpp   | 2 +-
 src/diatomic/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 57ce0d9..bc74402 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -415,7 +415,7 @@ int main(int argc, char **argv) {
     // restricted mode has nela == nelb so it vanishes there.
     const double Eefield = have_efield ? (P * Vel).trace()  : 0.0;
     const double Emfield = have_bfield
-        ? (P * Vmag).trace() - 0.5 * Bz * (nela - nelb) : 0.0;
+        ? (P * Vmag).trace() - (restricted ? 0.0 : 0.5 * Bz * (nela - nelb)) : 0.0;
     const double Econf   = have_conf   ? (P * Vconf).trace() : 0.0;
 
     const helfem::Matrix J = basis.coulomb(P);
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 026b1bd..5349ee5 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -434,7 +434,7 @@ int main(int argc, char **argv) {
     // coupling is off; Enucfield is a scalar independent of the density.
     const double Eefield = have_efield ? (P * Vel).trace() + Enucfield : 0.0;
     const double Emfield = have_bfield
-        ? (P * Vmag).trace() - 0.5 * Bz * (nela - nelb) : 0.0;
+        ? (P * Vmag).trace() - (restricted ? 0.0 : 0.5 * Bz * (nela - nelb)) : 0.0;
 
     tcomp.set();
     const helfem::Matrix J = basis.coulomb(P);
-- 
2.43.0


From 62f96412d56bdd378d1674f089f9133be233b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 17/32] fix: include the field energy of off-centre charges in
 the atomic program

---
 src/atomic/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index bc74402..1290b2c 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -305,6 +305,9 @@ int main(int argc, char **argv) {
   const helfem::Matrix quad = basis.quadrupole_zz();
   const helfem::Matrix Vel  = Ez * dip + Qzz * quad / 3.0;
   const helfem::Matrix Vmag = basis.Bz_field(Bz);
+  // Off-centre charges Zl, Zr at (0, 0, -/+ Rhalf) in the external field;
+  // the central nucleus at the origin does not contribute.
+  const double Enucfield = -Ez * (Zr - Zl) * Rhalf - Qzz * (Zl + Zr) * Rhalf * Rhalf / 3.0;
   const bool have_efield = (Ez != 0.0 || Qzz != 0.0);
   const bool have_bfield = (Bz != 0.0);
   const bool have_conf   = (iconf != 0);
@@ -413,7 +416,7 @@ int main(int argc, char **argv) {
     // the corresponding coupling is disabled, so the traces cost O(Nbf).
     // The -Bz/2 * (nela-nelb) piece is the Ms.Bz spin-Zeeman term:
     // restricted mode has nela == nelb so it vanishes there.
-    const double Eefield = have_efield ? (P * Vel).trace()  : 0.0;
+    const double Eefield = have_efield ? (P * Vel).trace() + Enucfield : 0.0;
     const double Emfield = have_bfield
         ? (P * Vmag).trace() - (restricted ? 0.0 : 0.5 * Bz * (nela - nelb)) : 0.0;
     const double Econf   = have_conf   ? (P * Vconf).trace() : 0.0;
-- 
2.43.0


From 6799a6b4beae78da75038404ec08da150b53fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 18/32] fix: transform loaded densities to the orthonormal
 basis as densities

---
 src/atomic/main.cpp             | 8 ++++----
 src/diatomic/main.cpp           | 6 +++---
 src/general/scf_driver_common.h | 8 +++++---
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 1290b2c..fefd1cd 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -626,7 +626,7 @@ int main(int argc, char **argv) {
     // Build per-block (orbitals, occupations) for OOO from the
     // projected density. For a block k with basis-function index set
     // dsym[k] and orthonormaliser Sinvh_k, we diagonalise
-    //   P_orth = Sinvh_k^T . P_spin(dsym[k], dsym[k]) . Sinvh_k
+    //   P_orth = X_k^T . P_spin(dsym[k], dsym[k]) . X_k,  X_k = S_k Sinvh_k
     // and hand OOO the eigenvectors (orthonormal orbitals in the
     // block basis) and eigenvalues (per-orbital occupations, sorted
     // largest first for Aufbau semantics).
@@ -639,13 +639,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], max_occ_restr);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], max_occ_open);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], max_occ_open);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 5349ee5..d579c89 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -638,13 +638,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], max_occ_restr);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], max_occ_open);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], max_occ_open);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index c15f70d..b9b8c09 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -222,14 +222,14 @@ namespace helfem {
     /// blocks become 0x0 placeholders. Called per spin channel and
     /// per block from the driver's --load path.
     ///
-    ///   P_orth = Sinvh_k^T . Pspin(dsym[k], dsym[k]) . Sinvh_k
+    ///   P_orth = X_k^T . Pspin(dsym[k], dsym[k]) . X_k,  X_k = S_k Sinvh_k
     ///          -> V, w  (descending); w clamped to [0, max_occ]
     template <typename Real>
     inline void fill_block_from_density(
         size_t out_index,
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
-        const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
+        const helfem::Matrix & Pspin, const helfem::Matrix & S, const std::vector<Eigen::Index> & idx,
         const helfem::Matrix & Sinvh_block, double max_occ) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
@@ -237,7 +237,9 @@ namespace helfem {
         return;
       }
       const helfem::Matrix Pblk  = Pspin(idx, idx);
-      const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
+      // Contravariant transformation: P = Sinvh P_orth Sinvh^T
+      const helfem::Matrix Xblk  = S(idx, idx) * Sinvh_block;
+      const helfem::Matrix Porth = Xblk.transpose() * Pblk * Xblk;
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
       // old symmetric-eigensolver + manual reversal.
-- 
2.43.0


From d70e1c44ec398d4ef73527f825f9b4a5159ca1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:07 +0000
Subject: [PATCH 19/32] fix: load the densities of both +m and -m orbitals
 under --symmetry=3

---
 src/diatomic/main.cpp           | 6 +++---
 src/general/scf_driver_common.h | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index d579c89..202a85a 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -638,13 +638,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], block_degeneracy[k] * max_occ_restr, &dmirror[k]);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], block_degeneracy[k] * max_occ_open, &dmirror[k]);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], block_degeneracy[k] * max_occ_open, &dmirror[k]);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index b9b8c09..405ff46 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -224,19 +224,23 @@ namespace helfem {
     ///
     ///   P_orth = X_k^T . Pspin(dsym[k], dsym[k]) . X_k,  X_k = S_k Sinvh_k
     ///          -> V, w  (descending); w clamped to [0, max_occ]
+    ///
+    /// A block with a -|m| mirror partner holds the electrons of both.
     template <typename Real>
     inline void fill_block_from_density(
         size_t out_index,
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
         const helfem::Matrix & Pspin, const helfem::Matrix & S, const std::vector<Eigen::Index> & idx,
-        const helfem::Matrix & Sinvh_block, double max_occ) {
+        const helfem::Matrix & Sinvh_block, double max_occ,
+        const std::vector<Eigen::Index> * mirror = nullptr) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
         occs[out_index] = helfem::Vector::Zero(0);
         return;
       }
-      const helfem::Matrix Pblk  = Pspin(idx, idx);
+      helfem::Matrix Pblk  = Pspin(idx, idx);
+      if (mirror != nullptr && !mirror->empty()) Pblk += Pspin(*mirror, *mirror);
       // Contravariant transformation: P = Sinvh P_orth Sinvh^T
       const helfem::Matrix Xblk  = S(idx, idx) * Sinvh_block;
       const helfem::Matrix Porth = Xblk.transpose() * Pblk * Xblk;
-- 
2.43.0


From 2e8564c413fb507d329d3976829c4e0f8bb8452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 20/32] fix: transform loaded atomic densities to the
 orthonormal basis as densities

---
 src/sadatom/scf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 2cc312e..03d8519 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -484,7 +484,9 @@ namespace helfem {
             } else {
               Pl_new = helfem::Matrix::Zero(Nrad, Nrad);
             }
-            const helfem::Matrix Porth = Sinvh_full.transpose() * Pl_new * Sinvh_full;
+            // Contravariant transformation: P = Sinvh P_orth Sinvh^T
+            const helfem::Matrix X = S_new * Sinvh_full;
+            const helfem::Matrix Porth = X.transpose() * Pl_new * X;
             Eigen::SelfAdjointEigenSolver<helfem::Matrix> es(Porth);
             if (es.info() != Eigen::Success)
               throw std::logic_error("--load: eigendecomposition of projected l block density failed");
-- 
2.43.0


From c661a93103b756f7ddd1cc5f07344ed17ea87945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:08 +0000
Subject: [PATCH 21/32] fix: keep fractional electron counts per angular
 momentum when loading an atomic density

---
 src/sadatom/scf.cpp | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 03d8519..a5985fd 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -473,12 +473,16 @@ namespace helfem {
           OpenOrbitalOptimizer::Orbitals<OOO_Real>            loaded_orbs(nblock * nparttype);
           OpenOrbitalOptimizer::OrbitalOccupations<OOO_Real>  loaded_occs(nblock * nparttype);
 
+          // Each l channel keeps the (possibly fractional) number of
+          // electrons of the saved density.
+          const helfem::Matrix S_old = oldbasis.overlap();
           auto fill_l = [&](size_t base, size_t l, const helfem::Cube & Pcube,
-                             double per_l_electrons, double max_occ) {
+                             double max_occ) {
             helfem::Matrix Pl_new;
             if (static_cast<int>(l) <= old_lmax && Pcube.size() > l) {
               Pl_new = Pproj * Pcube[l] * Pproj.transpose();
               const double trace_now = (Pl_new * S_new).trace();
+              const double per_l_electrons = (Pcube[l] * S_old).trace();
               if (trace_now > 0 && per_l_electrons > 0)
                 Pl_new *= per_l_electrons / trace_now;
             } else {
@@ -503,33 +507,14 @@ namespace helfem {
             loaded_occs[base + l] = w;
           };
 
-          // Per-l electron counts to renormalise into. Read from
-          // checkpoint if present, else fall back to trace-preserving
-          // (no rescaling). Checkpoint stores integers as N x 1 matrices.
-          Eigen::VectorXi per_l_a, per_l_b;
-          if (loadchk.exist("sadatom_occs_a")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_a", tmp);
-            per_l_a = tmp.col(0);
-          }
-          if (loadchk.exist("sadatom_occs_b")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_b", tmp);
-            per_l_b = tmp.col(0);
-          }
-
           for (size_t l = 0; l < nblock; ++l) {
-            double per_l = (static_cast<int>(l) < per_l_a.size())
-                             ? static_cast<double>(per_l_a(l)) : 0.0;
             double max_occ = restricted ? 2.0 * (2 * l + 1) : (2.0 * l + 1);
-            fill_l(0, l, Pal_old, per_l, max_occ);
+            fill_l(0, l, Pal_old, max_occ);
           }
           if (!restricted) {
             for (size_t l = 0; l < nblock; ++l) {
-              double per_l = (static_cast<int>(l) < per_l_b.size())
-                               ? static_cast<double>(per_l_b(l)) : 0.0;
               double max_occ = 2.0 * l + 1;
-              fill_l(nblock, l, Pbl_old, per_l, max_occ);
+              fill_l(nblock, l, Pbl_old, max_occ);
             }
           }
           scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
-- 
2.43.0


From a68234731342579bb0db2aa50662efe4f8a031fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:30 +0000
Subject: [PATCH 22/32] fix: add up occs.dat rows that name the same symmetry
 block

---
 src/atomic/main.cpp   | 6 +++---
 src/diatomic/main.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index fefd1cd..e22276f 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -574,10 +574,10 @@ int main(int argc, char **argv) {
       if (restricted) {
         if (nocca_i != noccb_i)
           throw std::logic_error("occs.dat: nocca != noccb on a row is incompatible with restricted mode.");
-        fixed_particles(matched_block) = static_cast<OOO_Real>(nocca_i + noccb_i);
+        fixed_particles(matched_block) += static_cast<OOO_Real>(nocca_i + noccb_i);
       } else {
-        fixed_particles(matched_block)         = static_cast<OOO_Real>(nocca_i);
-        fixed_particles(nsym + matched_block)  = static_cast<OOO_Real>(noccb_i);
+        fixed_particles(matched_block)         += static_cast<OOO_Real>(nocca_i);
+        fixed_particles(nsym + matched_block)  += static_cast<OOO_Real>(noccb_i);
       }
     }
     if (total_a != nela)
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 202a85a..57ad87a 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -590,10 +590,10 @@ int main(int argc, char **argv) {
       if (restricted) {
         if (nocca_i != noccb_i)
           throw std::logic_error("occs.dat: nocca != noccb on a row is incompatible with restricted mode.");
-        fixed_particles(matched_block) = static_cast<OOO_Real>(nocca_i + noccb_i);
+        fixed_particles(matched_block) += static_cast<OOO_Real>(nocca_i + noccb_i);
       } else {
-        fixed_particles(matched_block)         = static_cast<OOO_Real>(nocca_i);
-        fixed_particles(nsym + matched_block)  = static_cast<OOO_Real>(noccb_i);
+        fixed_particles(matched_block)         += static_cast<OOO_Real>(nocca_i);
+        fixed_particles(nsym + matched_block)  += static_cast<OOO_Real>(noccb_i);
       }
     }
     if (total_a != nela)
-- 
2.43.0


From 969996deb0e9127d362b293229660c999c3675e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:49 +0000
Subject: [PATCH 23/32] fix: use the polar angle about the bond midpoint for
 mid-bond probes

---
 src/diatomic/twodquadrature.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diatomic/twodquadrature.cpp b/src/diatomic/twodquadrature.cpp
index 56f34f0..09e50b9 100644
--- a/src/diatomic/twodquadrature.cpp
+++ b/src/diatomic/twodquadrature.cpp
@@ -275,7 +275,9 @@ namespace helfem {
           for(size_t ia=0;ia<wang.size();ia++)
             for(size_t ir=0;ir<wrad.size();ir++) {
               size_t idx=ia*wrad.size()+ir;
-              double cthval = cth(ia);
+              // cos(theta) = z/r about the bond midpoint
+              double rc = std::sqrt(std::max(chmu(ir)*chmu(ir) + cth(ia)*cth(ia) - 1.0, 0.0));
+              double cthval = (rc > 0.0) ? chmu(ir)*cth(ia)/rc : 1.0;
               double Plm = eval_Plm(cthval);
               for(size_t ix=0;ix<itg.rows();ix++)
                 itg(ix,idx)*=Plm;
-- 
2.43.0


From 619dfeeaea9cde07d00ad40e199555541024f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 24/32] fix: count occupied orbitals of unrestricted atoms by
 their own capacity in importance profiles

---
 src/sadatom/main.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sadatom/main.cpp b/src/sadatom/main.cpp
index fc49102..6c59e79 100644
--- a/src/sadatom/main.cpp
+++ b/src/sadatom/main.cpp
@@ -145,14 +145,16 @@ static helfem::Matrix ao_completeness_profile(
 // SCFSolver::ao_importance_profile.
 static helfem::Matrix ao_importance_profile(
     const helfem::sadatom::basis::TwoDBasis & basis,
-    const helfem::Cube & C, const Eigen::VectorXi & occs, int lmax,
+    const helfem::Cube & C, const Eigen::VectorXi & occs, bool restricted, int lmax,
     const helfem::Vector & expn,
     const std::function<helfem::Matrix(int l, const helfem::Vector & r)> & eval_ao) {
   helfem::Matrix I = helfem::Matrix::Zero(expn.size(), lmax + 2);
   I.col(0) = expn;
   for (int l = 0; l <= lmax; l++) {
     if (occs(l) <= 0) continue;
-    const int nocc = (int) std::ceil(occs(l) / (2.0 * (2.0 * l + 1.0)));
+    // An unrestricted channel holds 2l+1 electrons per shell, not 2*(2l+1).
+    const double capacity = (restricted ? 2.0 : 1.0) * (2.0 * l + 1.0);
+    const int nocc = (int) std::ceil(occs(l) / capacity);
     const helfem::Matrix Cocc = C[l].leftCols(nocc);
     helfem::Matrix ao_projection = helfem::Matrix::Zero(nocc, expn.size());
     for (size_t iel = 0; iel < basis.get_rad_Nel(); iel++) {
@@ -182,6 +184,7 @@ static void write_profiles(
   const helfem::Vector expn = logexp.array().unaryExpr(
       [](double x) { return std::pow(10.0, x); });
   const helfem::Matrix Sinvh = result.basis.Sinvh();
+  const bool restricted = result.orbs_b.empty();
   auto eval_gto = [&](int l, const helfem::Vector & r) {
     return helfem::lcao::radial_GTO(r, l, expn); };
   auto eval_sto = [&](int l, const helfem::Vector & r) {
@@ -193,9 +196,9 @@ static void write_profiles(
   io::write_raw_ascii(el + "_sto_completeness.dat",
                       ao_completeness_profile(result.basis, Sinvh, lmax, expn, eval_sto));
   io::write_raw_ascii(el + "_gto_importance.dat",
-                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, lmax, expn, eval_gto));
+                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, restricted, lmax, expn, eval_gto));
   io::write_raw_ascii(el + "_sto_importance.dat",
-                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, lmax, expn, eval_sto));
+                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, restricted, lmax, expn, eval_sto));
   printf("Wrote GTO/STO completeness and importance profiles for %s.\n", el.c_str());
 }
 
-- 
2.43.0


From ef0f426000c69fff4956e6ae74ea69494615a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 25/32] fix: use only the occupied beta orbitals for the
 kinetic energy on the grid

---
 src/diatomic/density_grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diatomic/density_grid.cpp b/src/diatomic/density_grid.cpp
index 5075043..582eca9 100644
--- a/src/diatomic/density_grid.cpp
+++ b/src/diatomic/density_grid.cpp
@@ -155,7 +155,7 @@ int main(int argc, char **argv) {
     Eigen::MatrixXcd STCasub = STCa.leftCols(nela)(bidx, Eigen::all).cast<std::complex<double>>();
     Eigen::MatrixXcd STCbsub;
     if(nelb) {
-	STCbsub = STCb(bidx, Eigen::all).cast<std::complex<double>>();
+	STCbsub = STCb.leftCols(nelb)(bidx, Eigen::all).cast<std::complex<double>>();
     }
 
     // Radial values
-- 
2.43.0


From 6d0f4fb88ea606efc5dfd078d68ddc4c17f1126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 26/32] fix: save the orbitals and half-inverse overlap that
 the diatomic grid and completeness analyses read

---
 src/diatomic/main.cpp           |  7 ++++++
 src/general/scf_driver_common.h | 41 +++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 57ad87a..47a6a3c 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -670,6 +670,13 @@ int main(int argc, char **argv) {
     savechk.write("Pb", Pb_final);
     savechk.write("nela", nela);
     savechk.write("nelb", nelb);
+    // Orbitals and half-inverse overlap needed by density_grid / completeness.
+    helfem::Matrix Ca_final, Cb_final;
+    std::tie(Ca_final, Cb_final) = helfem::scf_driver::assemble_final_orbitals<OOO_Real>(
+        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs, &dmirror);
+    savechk.write("Ca", Ca_final);
+    savechk.write("Cb", Cb_final);
+    savechk.write("Sinvh", basis.Sinvh(/*chol*/false, /*sym*/0));
     // Extra parameters needed by density_line / density_grid / completeness.
     savechk.write("Rhalf", Rhalf);
     savechk.write("Z1", Z1);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index 405ff46..74df709 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -307,6 +307,47 @@ namespace helfem {
       return {Pa_final, Pb_final};
     }
 
+    /// Save-path helper: AO coefficients of the converged alpha / beta
+    /// orbitals of all symmetry blocks, ordered by decreasing occupation.
+    /// Block layout, restricted case and dmirror as above.
+    template <typename Real>
+    inline std::pair<helfem::Matrix, helfem::Matrix> assemble_final_orbitals(
+        size_t Nbf, bool restricted,
+        const std::vector<std::vector<Eigen::Index>> & dsym,
+        const std::vector<helfem::Matrix> & Sinvh,
+        const OpenOrbitalOptimizer::Orbitals<Real> & final_orbs,
+        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs,
+        const std::vector<std::vector<Eigen::Index>> * dmirror = nullptr) {
+      const size_t nsym = dsym.size();
+      auto collect = [&](size_t offset) {
+        std::vector<std::pair<Real, helfem::Vector>> cols;
+        for (size_t k = 0; k < nsym; ++k) {
+          if (dsym[k].empty()) continue;
+          const bool paired = (dmirror != nullptr && !(*dmirror)[k].empty());
+          const helfem::Matrix orb_ao = Sinvh[k] * final_orbs[offset + k];
+          for (Eigen::Index i = 0; i < orb_ao.cols(); ++i) {
+            const Real occ = (paired ? 0.5 : 1.0) * final_occs[offset + k](i);
+            helfem::Vector c = helfem::Vector::Zero(static_cast<Eigen::Index>(Nbf));
+            c(dsym[k]) = orb_ao.col(i);
+            cols.emplace_back(occ, c);
+            if (paired) {
+              c.setZero();
+              c((*dmirror)[k]) = orb_ao.col(i);
+              cols.emplace_back(occ, c);
+            }
+          }
+        }
+        std::stable_sort(cols.begin(), cols.end(),
+                         [](const auto & a, const auto & b) { return a.first > b.first; });
+        helfem::Matrix C(static_cast<Eigen::Index>(Nbf), static_cast<Eigen::Index>(cols.size()));
+        for (size_t i = 0; i < cols.size(); ++i)
+          C.col(static_cast<Eigen::Index>(i)) = cols[i].second;
+        return C;
+      };
+      const helfem::Matrix Ca = collect(0);
+      return {Ca, restricted ? Ca : collect(nsym)};
+    }
+
     /// CLI-input normalisation shared by both drivers:
     /// * scf::parse_nela_nelb fills in nela/nelb from --Q and --M
     ///   when both are zero on entry;
-- 
2.43.0


From 9480e4dd09ea2b13209239308008405ea13a4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 27/32] fix: print only the existing Morse energy levels when
 the basis has fewer than ten functions

---
 src/harmonic/morse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonic/morse.cpp b/src/harmonic/morse.cpp
index 1684df8..44a44b9 100644
--- a/src/harmonic/morse.cpp
+++ b/src/harmonic/morse.cpp
@@ -21,6 +21,7 @@
 #include "chebyshev.h"
 
 #include <Eigen/Eigenvalues>
+#include <algorithm>
 
 using namespace helfem;
 
@@ -126,7 +127,7 @@ int main(int argc, char **argv) {
   // Go back to non-orthonormal basis
   C=Sinvh*C;
 
-  for(size_t i=0;i<10;i++)
+  for(Eigen::Index i=0;i<std::min<Eigen::Index>(10,E.size());i++)
     printf("E[%i] = % .15e\n",(int) i, E(i));
 
   // Test orthonormality
-- 
2.43.0


From 8bf5cd898a079ac8e130ad3636781aeb17edd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 28/32] fix: apply the mass given to the Morse oscillator
 program

---
 src/harmonic/morse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonic/morse.cpp b/src/harmonic/morse.cpp
index 44a44b9..62e0e8f 100644
--- a/src/harmonic/morse.cpp
+++ b/src/harmonic/morse.cpp
@@ -68,6 +68,7 @@ int main(int argc, char **argv) {
   double De = parser.get<double>("De");
   double a = parser.get<double>("a");
   double re = parser.get<double>("re");
+  double m = parser.get<double>("m");
   bool deuteron = parser.get<bool>("deuteron");
   std::string save = parser.get<std::string>("save");
 
@@ -98,7 +99,7 @@ int main(int argc, char **argv) {
   // Form potential matrix
   helfem::Matrix V(potential(fem, xq, wq, De, a, re));
   // Form kinetic energy matrix
-  helfem::Matrix T(kinetic(fem, xq, wq));
+  helfem::Matrix T(kinetic(fem, xq, wq)/m);
   if(deuteron)
     T/=2.0;
 
-- 
2.43.0


From 3b354fd40d2212aa2b32a758d5279c22319bc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:28 +0000
Subject: [PATCH 29/32] fix: the radial density of a spherical atom vanishes at
 the nucleus

---
 src/sadatom/basis.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 07517d4..f7d4313 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -709,7 +709,9 @@ namespace helfem {
         size_t Npts=d[0].size();
 
         helfem::Vector n = helfem::Vector::Zero(radial.Nel()*Npts+1);
-        n(0)=4.0*M_PI*nuclear_density(Prad);
+        // The radial density vanishes at the nucleus
+        if(!rsqweight)
+          n(0)=4.0*M_PI*nuclear_density(Prad);
         for(size_t iel=0;iel<radial.Nel();iel++) {
           n.segment(1+iel*Npts,Npts)=d[iel];
         }
-- 
2.43.0


From d46ab2109fccc0137948dfea7a4b802609c6444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 30/32] fix: evaluate the derivatives of spherical-atom
 orbitals at the nucleus

---
 src/sadatom/basis.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index f7d4313..e17ae03 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -644,7 +644,9 @@ namespace helfem {
         helfem::Matrix Cv = helfem::Matrix::Zero(radial.Nel()*Npts+1,C.cols());
         // Values at the nucleus
         {
-	  // tbd
+          size_t ifirst, ilast;
+          radial.get_idx(0,ifirst,ilast);
+          Cv.row(0) = radial.get_df(helfem::Vector::Constant(1,-1.0),0)*C.middleRows(ifirst,ilast-ifirst+1);
         }
         // Other points
         for(size_t iel=0;iel<radial.Nel();iel++) {
@@ -671,7 +673,9 @@ namespace helfem {
         helfem::Matrix Cv = helfem::Matrix::Zero(radial.Nel()*Npts+1,C.cols());
         // Values at the nucleus
         {
-	  // tbd
+          size_t ifirst, ilast;
+          radial.get_idx(0,ifirst,ilast);
+          Cv.row(0) = radial.get_lf(helfem::Vector::Constant(1,-1.0),0)*C.middleRows(ifirst,ilast-ifirst+1);
         }
         // Other points
         for(size_t iel=0;iel<radial.Nel();iel++) {
-- 
2.43.0


From ed788133fd707dfb593469b858b85b55bdf1822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:26 +0000
Subject: [PATCH 31/32] fix: keep the screened charge of hydrogen finite at
 large radii

---
 src/general/gsz.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index d5d8558..8a3d985 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "gsz.h"
+#include <algorithm>
 
 // Values for d_Z from Green 1969 paper
 static const double d_Z_GSZ[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0.708, 0.575, 0.500, 0.561, 0.621, 0.729, 0.817, 0.868, 0.885, 0.881, 0.862, 1.006, 1.154, 1.116, 1.060, 0.996, 0.837, 0.866, 0.807, 0.751, 0.700, 0.606, 0.612, 0.631, 0.649, 0.663, 0.675, 0.684, 0.689, 0.744, 0.798, 0.855, 0.866, 0.831, 0.825, 0.855, 0.803, 0.788, 0.737, 0.754, 0.775, 0.810, 0.841, 0.870, 0.896, 0.919, 0.940, 1.022, 1.108, 1.150, 1.081, 0.970, 0.938, 0.905, 0.873, 0.842, 0.862, 0.830, 0.754, 0.728, 0.702, 0.677, 0.654, 0.665, 0.672, 0.676, 0.679, 0.680, 0.680, 0.679, 0.661, 0.657, 0.671, 0.690, 0.708, 0.726, 0.744, 0.761, 0.777, 0.818, 0.859, 0.899, 0.927, 0.887, 0.880, 0.872, 0.832, 0.822, 0.842, 0.830, 0.790, 0.778, 0.766, 0.754, 0.742, 0.755};
@@ -33,7 +34,9 @@ namespace helfem {
     }
 
     double Z_GSZ(double r, double Z, double d_Z, double H_Z) {
-      return 1.0 + (Z-1)*1.0/(1.0 + (exp(r/d_Z) - 1.0)*H_Z);
+      // Cap the exponent: H_Z vanishes for hydrogen, and an overflowing
+      // exponential times zero is not a number
+      return 1.0 + (Z-1)*1.0/(1.0 + (exp(std::min(r/d_Z,700.0)) - 1.0)*H_Z);
     }
 
     helfem::Vector Z_GSZ(const helfem::Vector & r, double Z, double d_Z, double H_Z) {
-- 
2.43.0


From 268dad9fdf11dcd3d4a2214e83546d1140a7bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:40 +0000
Subject: [PATCH 32/32] fix: handle electron count thresholds that exceed the
 number of electrons

---
 src/sadatom/basis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index e17ae03..004063b 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -893,6 +893,10 @@ namespace helfem {
 	    break;
 	}
 
+	// There are fewer electrons than asked for
+	if(ielement>=radial.Nel())
+	  return 0.0;
+
 	// Radial functions in element
 	size_t ifirst, ilast;
 	radial.get_idx(ielement,ifirst,ilast);
-- 
2.43.0

