From 108f22622eae3bfaa280496bd02f36c97c62dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 01/45] fix: sign of the minimiser when the line-search cubic
 degenerates to a parabola

---
 src/common/linesearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 2d3cd77..efc3cc4 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -40,7 +40,7 @@ double cubic_interp(double phi0,
 
    if (abs(a) < std::numeric_limits<double>::epsilon())
    {
-      return dphi0 / (2 * b);
+      return -dphi0 / (2 * b);
    }
    else
    {
-- 
2.43.0


From 443c8de0d3a5af8c9f2c68468bbc61da9bb49c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 02/45] fix: line search accepted a step at which the residual
 norm is NaN

---
 src/common/linesearch.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index efc3cc4..8bb604a 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <functional>
 
 #include "mfem.hpp"
@@ -68,7 +69,8 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
    int iter = 0;
    // std::cout << "linesearch iter 0: phi(0) = " << phi0
    //           << ", dphi(0)/dalpha = " << dphi0 << "\n";
-   while (phi2 > phi0 + mu * alpha2 * dphi0)
+   // negated so that a NaN phi2 also fails the sufficient decrease condition
+   while (!(phi2 <= phi0 + mu * alpha2 * dphi0))
    {
       iter += 1;
       // std::cout << "linesearch iter " << iter << ": alpha = " << alpha2
@@ -95,6 +97,11 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
       alpha1 = alpha2;
       phi1 = phi2;
 
+      if (!std::isfinite(alpha_tmp))
+      {
+         // phi was not finite: there is nothing to interpolate
+         alpha_tmp = alpha2 * rho_lo;
+      }
       alpha_tmp = std::min(alpha_tmp, alpha2 * rho_hi);
       alpha2 = std::max(alpha_tmp, alpha2 * rho_lo);
 
-- 
2.43.0


From 195df055d3e9daffd8b662a0e1794f7005a8f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 03/45] fix: linear Jacobi polynomial had the wrong constant
 term when beta is not zero

---
 src/common/orthopoly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/orthopoly.cpp b/src/common/orthopoly.cpp
index 6d775c4..f248981 100644
--- a/src/common/orthopoly.cpp
+++ b/src/common/orthopoly.cpp
@@ -83,7 +83,7 @@ void jacobiPoly(const Vector &x,
    double gamma1 = (alpha + 1) * (beta + 1) * gamma0 / (alpha + beta + 3);
    // Set poly_1(:) = ((alpha+beta+2)*x(:) + (alpha-beta))*0.5/sqrt(gamma1)
    Vector poly_1(size);
-   poly_1 = alpha + beta;
+   poly_1 = alpha - beta;
    add(poly_1, alpha + beta + 2, x, poly_1);
    poly_1 *= 0.5 / sqrt(gamma1);
    if (degree == 1)
-- 
2.43.0


From 9403354fb6d1dce769511e33a799a4d949133748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 04/45] fix: derivatives of the SBP basis functions were scaled
 by the norm at the wrong node

---
 src/common/sbp_fe.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index bc4de9c..8f32239 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -503,7 +503,7 @@ void SBPSegmentElement::CalcDShape(const IntegrationPoint &ip,
    Vector tempVec(dof);
    Q[0].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(0, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);  // row ipIdx of D = H^{-1} Q
 }
 
 // //////////////////////////////////////////////////////////////////////////
@@ -923,7 +923,7 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
    dshape.SetCol(0, tempVec);
    Q[1].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(1, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);  // row ipIdx of D = H^{-1} Q
 }
 
 SBPTetrahedronElement::SBPTetrahedronElement(const int degree, const int num_nodes)
@@ -1121,7 +1121,7 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
    dshape.SetCol(1, tempVec);
    Q[2].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(2, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);  // row ipIdx of D = H^{-1} Q
 }
 
 SBPCollection::SBPCollection(const int p, const int dim)
-- 
2.43.0


From 016140582bc3360aefb76a56f6cb620571a02ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 05/45] fix: SBP segment basis functions away from the nodes
 were too large by sqrt(2)

---
 src/common/sbp_fe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index 8f32239..dbefb53 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -453,7 +453,7 @@ void SBPSegmentElement::CalcShape(const IntegrationPoint &ip,
       for (int i = 0; i <= order; ++i)
       {
          miso::jacobiPoly(xvec, 0.0, 0.0, i, poly);
-         poly *= 2.0;  // scale to mfem reference element
+         poly *= sqrt(2.0);  // scale to mfem reference element
          for (int k = 0; k < GetDof(); ++k)
          {
             shape(k) += poly(0) * V(k, ptr) * H(k);
-- 
2.43.0


From 98b9f63d61061221a17eba843ccf413c94f9c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 06/45] fix: dpressdq could not be instantiated because its
 output was const

---
 src/physics/fluidflow/euler_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 213e4db..d391f3e 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -57,7 +57,7 @@ inline xdouble pressure(const xdouble *q)
 /// \tparam xdouble - either double or adouble
 /// \tparam dim - number of physical dimensions
 template <typename xdouble, int dim>
-void dpressdq(const xdouble *q, const xdouble *dpdq)
+void dpressdq(const xdouble *q, xdouble *dpdq)
 {
    xdouble phi = 0.0;
    for (int i = 0; i < dim; ++i)
-- 
2.43.0


From 15d3171ed1d96afeb98f5f99551e99db254df65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 07/45] fix: the affine-shifted entropy could not be
 instantiated (missing template argument)

---
 src/physics/fluidflow/euler_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index d391f3e..29dae28 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -224,7 +224,7 @@ inline xdouble entropy(const xdouble *q, const xdouble *qe)
    xdouble ent_ref = entropy<xdouble, dim>(qe);
    ent -= ent_ref;
    xdouble we[dim + 2];
-   calcEntropyVars<xdouble, dim>(qe, we);
+   calcEntropyVars<xdouble, dim, false>(qe, we);
    for (int i = 0; i < dim + 2; ++i)
       ent -= we[i] * (q[i] - qe[i]);
    return ent;
-- 
2.43.0


From 9b489e865b099aaead256662c90afcc993c85a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 08/45] fix: bisection returned a point that is no root when an
 end point is one, and reported failure at a root found in the last iteration

---
 src/utils/utils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 4c345f1..735d378 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -299,6 +299,14 @@ double bisection(const std::function<double(double)> &func,
       cerr << "bisection: func(xl)*func(xr) is positive." << endl;
       throw(-1);
    }
+   if (fl == 0.0)
+   {
+      return xl;
+   }
+   if (fr == 0.0)
+   {
+      return xr;
+   }
    double xm = 0.5 * (xl + xr);
    double fm = func(xm);
    int iter = 0;
@@ -323,7 +331,8 @@ double bisection(const std::function<double(double)> &func,
       xm = 0.5 * (xl + xr);
       fm = func(xm);
    }
-   if (iter >= maxiter)
+   // the comparisons are false, and the search has failed, if func gave a NaN
+   if (!(abs(fm) <= ftol) && !(abs(xr - xl) <= xtol && fl * fr < 0.0))
    {
       cerr << "bisection: failed to find a solution in maxiter." << endl;
       throw(-1);
-- 
2.43.0


From f1e4ca30ee8e2dd6f32b9e9e4077627a7c838461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 09/45] fix: secant never reported that it did not converge

---
 src/utils/utils.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 735d378..ebdb5a4 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -1,5 +1,6 @@
 #include <random>
 #include <cmath>
+#include <limits>
 
 #include "utils.hpp"
 
@@ -363,13 +364,14 @@ double secant(const std::function<double(double)> &func,
    }
    x = x2;
    f = f2;
+   double dx = std::numeric_limits<double>::infinity();
    int iter = 0;
-   while ((fabs(f) > ftol) && (iter < maxiter))
+   while (!(fabs(f) <= ftol) && (iter < maxiter))
    {
       ++iter;
       try
       {
-         double dx = f2 * (x2 - x1) / (f2 - f1);
+         dx = f2 * (x2 - x1) / (f2 - f1);
          x -= dx;
          f = func(x);
          if (fabs(dx) < xtol)
@@ -386,7 +388,8 @@ double secant(const std::function<double(double)> &func,
          cerr << "secant: " << exception.what() << endl;
       }
    }
-   if (iter > maxiter)
+   // neither comparison holds if func gave a NaN
+   if (!(fabs(f) <= ftol) && !(fabs(dx) < xtol))
    {
       throw MISOException("secant: maximum number of iterations exceeded");
    }
-- 
2.43.0


From 53fdbb6c351894216a2c7dfc5845ddf5e8347606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 10/45] fix: boundary attributes that do not exist were written
 outside the marker array

---
 src/utils/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index ebdb5a4..c98d7a4 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -133,6 +133,11 @@ void attrVecToArray(const std::vector<int> &vec_attributes,
    attributes = 0;
    for (const auto &attr : vec_attributes)
    {
+      if (attr < 1 || attr > attributes.Size())
+      {
+         throw MISOException("Attribute " + std::to_string(attr) +
+                             " does not exist!\n");
+      }
       attributes[attr - 1] = 1;
    }
 }
-- 
2.43.0


From 18f9057ac339ad35c1ed3f651fc59672fa6fe243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 11/45] fix: slope of the inexact-Newton merit function used
 the transposed Jacobian

---
 src/common/inexact_newton.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index 0e3bdfd..ac6f8bb 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -21,10 +21,10 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    Vector temp(r.Size());
 
    double p0 = 0.5 * norm * norm;
-   // temp=F'(x_i)*r(x_i)
-   jac->Mult(r, temp);
+   // temp=F'(x_i)*c
+   jac->Mult(c, temp);
    // c is the negative inexact newton step size.
-   double p0p = -Dot(c, temp);
+   double p0p = -Dot(r, temp);
    // Calculate the new norm.
 
    add(x, -1.0, c, x_new);
-- 
2.43.0


From 0d050f00eae9ae2563af454efa8571ad44fa3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 12/45] fix: inexact-Newton backtracking did not scale the
 slope with the reduced step

---
 src/common/inexact_newton.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index ac6f8bb..d78fa20 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -41,8 +41,8 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    while (err_new > (1 - t * (1 - theta)) * norm)
    {
       double p1 = 0.5 * err_new * err_new;
-      // Quadratic interpolation between [0,1]
-      theta = quadInterp(0.0, p0, p0p, 1.0, p1);
+      // Quadratic interpolation between [0,1], along the current step s * c
+      theta = quadInterp(0.0, p0, s * p0p, 1.0, p1);
       theta = (theta > theta_min) ? theta : theta_min;
       theta = (theta < theta_max) ? theta : theta_max;
       // set the new trial step size.
-- 
2.43.0


From ecf07cf145ce43587065de346d81cce714edd459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 13/45] fix: inexact Newton accepted a step at which the
 residual is NaN

---
 src/common/inexact_newton.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index d78fa20..4850042 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -38,7 +38,8 @@ double InexactNewton::ComputeStepSize(const Vector &x,
 
    // Globalization start from here.
    int itt = 0;
-   while (err_new > (1 - t * (1 - theta)) * norm)
+   // negated so that a NaN residual also fails the decrease condition
+   while (!(err_new <= (1 - t * (1 - theta)) * norm))
    {
       double p1 = 0.5 * err_new * err_new;
       // Quadratic interpolation between [0,1], along the current step s * c
-- 
2.43.0


From fdf921b30e745f9e7eb503886714c9cbe5033a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 14/45] fix: sum of operators with a zero coefficient or
 non-square operators used stale memory

---
 src/common/matrix_operators.cpp | 12 ++++++++++--
 src/common/matrix_operators.hpp |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 6412dac..24cb47f 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -16,7 +16,7 @@ SumOfOperators::SumOfOperators(double alpha,
    b(beta),
    oper_a(&oper1),
    oper_b(&oper2),
-   work_vec(oper1.Width())
+   work_vec(oper1.Height())
 {
    if ((oper_a->Height() != oper_b->Height()) ||
        (oper_a->Width() != oper_b->Width()))
@@ -38,7 +38,7 @@ void SumOfOperators::Add(double alpha,
 
 void SumOfOperators::Mult(const Vector &x, Vector &y) const
 {
-   y.SetSize(x.Size());
+   y.SetSize(Height());
    const double zero = 1e-16;
    if (fabs(a) > zero)
    {
@@ -48,6 +48,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          work_vec *= a;
       }
    }
+   else
+   {
+      work_vec = 0.0;
+   }
    if (fabs(b) > zero)
    {
       oper_b->Mult(x, y);
@@ -56,6 +60,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          y *= b;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    y += work_vec;
 }
 
diff --git a/src/common/matrix_operators.hpp b/src/common/matrix_operators.hpp
index 66ad0d7..de5efbe 100644
--- a/src/common/matrix_operators.hpp
+++ b/src/common/matrix_operators.hpp
@@ -21,7 +21,7 @@ public:
       b(0.0),
       oper_a(nullptr),
       oper_b(nullptr),
-      work_vec(width)
+      work_vec(height)
    { }
 
    /// Construct an empty operator with a pre-defined height
-- 
2.43.0


From b483e26a52c457643ea88525ae06518eafee226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 15/45] fix: matrix-free Jacobian with zero scaling returned
 the uninitialised output

---
 src/common/matrix_operators.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 24cb47f..9ae6002 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -111,6 +111,10 @@ void JacobianFree::Mult(const mfem::Vector &x, mfem::Vector &y) const
          y *= scale;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    if (explicit_part)
    {
       // Include contribution from explicit operator, if necessary
-- 
2.43.0


From f90b8f773c5b651a73566c981c0ebb6e1cd4d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 16/45] fix: the message for an unknown time stepper read an
 option that is never there

---
 src/common/ode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index f4a4a82..979cdd0 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -247,7 +247,7 @@ void FirstOrderODE::setTimestepper(const nlohmann::json &ode_options)
    else
    {
       throw MISOException("Unknown ODE solver type: " +
-                          ode_options["ode-solver"].get<std::string>());
+                          timestepper);
       // TODO: parallel exit
    }
    ode_solver_->Init(*this);
-- 
2.43.0


From c774e4195b707048649abf2d68f36002025ce48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 17/45] fix: control inputs that do not name the loop closed it
 again

---
 src/physics/fluidflow/flow_control_residual.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 5d8b8d4..23a5005 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -63,7 +63,7 @@ void setInputs(ControlResidual &residual, const MISOInputs &inputs)
    setValueFromInputs(inputs, "eta", residual.eta);
    setValueFromInputs(inputs, "beta", residual.beta);
    setValueFromInputs(inputs, "target-entropy", residual.target_entropy);
-   double closed_double = 1.0;
+   double closed_double = residual.closed_loop ? 1.0 : 0.0;
    setValueFromInputs(inputs, "closed-loop", closed_double);
    if (fabs(closed_double) < numeric_limits<double>::epsilon())
    {
-- 
2.43.0


From 7e1118dffb274bc4e55eb4f8eb39b1347e9764af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 18/45] fix: copying an integrator wrapper referred to the
 wrapper instead of the integrator

---
 src/physics/miso_integrator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/miso_integrator.hpp b/src/physics/miso_integrator.hpp
index 39ad579..bef216a 100644
--- a/src/physics/miso_integrator.hpp
+++ b/src/physics/miso_integrator.hpp
@@ -5,6 +5,7 @@
 #include <memory>
 #include <vector>
 #include <string>
+#include <type_traits>
 
 #include "mfem.hpp"
 #include "nlohmann/json.hpp"
@@ -61,7 +62,8 @@ public:
    friend void setInputs(MISOIntegrator &integ, const MISOInputs &inputs);
    friend void setOptions(MISOIntegrator &integ, const nlohmann::json &options);
 
-   template <typename T>
+   template <typename T,
+             typename = std::enable_if_t<!std::is_same_v<T, MISOIntegrator>>>
    MISOIntegrator(T &x) : self_(new model<T>(x))
    { }
    MISOIntegrator(const MISOIntegrator &x) : self_(x.self_->copy_()) { }
-- 
2.43.0


From 2c47e965b5e44d4cef532fa2a3f3e5e8654acabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 19/45] fix: mesh sensitivity of a volume integral without a
 density lost the weight's derivative

---
 src/physics/mfem_common_integ.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 77259cd..3f9bc03 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -238,6 +238,11 @@ void VolumeIntegratorMeshSens::AssembleRHSElementVect(
             /// double s = rho->Eval(trans, ip);
             (*rho)->EvalRevDiff(s_bar, trans, ip, PointMat_bar);
          }
+         else
+         {
+            /// val = w;
+            w_bar += val_bar;
+         }
       }
       else
       {
-- 
2.43.0


From a4825fa26348f55133a89397762902abd52aabbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 20/45] fix: StateIntegrator evaluated shape functions into a
 vector without a size

---
 src/physics/mfem_common_integ.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 3f9bc03..288171e 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -307,6 +307,8 @@ double StateIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
+   shape.SetSize(el.GetDof());
+
    double fun = 0.0;
    for (int i = 0; i < ir->GetNPoints(); ++i)
    {
@@ -326,6 +328,8 @@ void StateIntegrator::AssembleElementVector(const mfem::FiniteElement &el,
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
+   shape.SetSize(el.GetDof());
+
    elfun_bar.SetSize(elfun.Size());
    elfun_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); ++i)
-- 
2.43.0


From 6c52fbefe2bae13cec5284dd14a37eaba83a56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 21/45] fix: mesh sensitivity of the vector mass integrator
 dropped the scaling alpha from the weight's derivative

---
 src/physics/mfem_common_integ.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 288171e..8378c44 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -2854,7 +2854,8 @@ void VectorFEMassIntegratorMeshSens::AssembleRHSElementVect(
       MultAtB(vshape, vshapedxt_bar, adj_jac_bar);
 
       /// double w = alpha * ip.weight / trans.Weight();
-      double trans_weight_bar = -w_bar * ip.weight / pow(trans.Weight(), 2);
+      double trans_weight_bar =
+          -w_bar * alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From a9a0d76528255902692eb54da72814928d308bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 22/45] fix: mesh sensitivity of the domain load used another
 quadrature rule than the load on tensor-product elements

---
 src/physics/mfem_common_integ.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 8378c44..a8cd582 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -3165,27 +3165,9 @@ void DomainLFIntegratorMeshRevSens::AssembleRHSElementVect(
    const IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = [&]()
-      {
-         if (el.Space() == FunctionSpace::Pk)
-         {
-            return 2 * el.GetOrder() - 2;
-         }
-         else
-         {
-            // order = 2*el.GetOrder() - 2;  // <-- this seems to work fine too
-            return 2 * el.GetOrder() + el.GetDim() - 1;
-         }
-      }();
-
-      if (el.Space() == FunctionSpace::rQk)
-      {
-         ir = &RefinedIntRules.Get(el.GetGeomType(), order);
-      }
-      else
-      {
-         ir = &IntRules.Get(el.GetGeomType(), order);
-      }
+      /// the rule used by the primal integrator, mfem::DomainLFIntegrator(F, 2, -2)
+      int order = 2 * el.GetOrder() - 2;
+      ir = &IntRules.Get(el.GetGeomType(), order);
    }
 
    auto &alpha = integ.alpha;
-- 
2.43.0


From 407d718e70d4402406366c3cfc70d8e7bf4a4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 23/45] fix: mesh sensitivity of the curl-curl residual ignored
 the scaling alpha

---
 src/physics/electromagnetics/electromag_integ.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index e9988ca..7dd5fb9 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3530,7 +3530,7 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       const IntegrationPoint &ip = ir->IntPoint(i);
       isotrans.SetIntPoint(&ip);
 
-      const double w = ip.weight / trans.Weight();
+      const double w = integ.alpha * ip.weight / trans.Weight();
 
       if (dim == 3)
       {
@@ -3600,8 +3600,9 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       jac_bar = 0.0;
       AddMult(curlshape_dFt_bar, curlshape, jac_bar);
 
-      /// const double w = ip.weight / trans.Weight();
-      trans_weight_bar -= w_bar * ip.weight / pow(trans.Weight(), 2);
+      /// const double w = integ.alpha * ip.weight / trans.Weight();
+      trans_weight_bar -=
+          w_bar * integ.alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From 817df977a5d643a779bcdbbab2b412ec85a69fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 24/45] fix: team13 B-H spline had its control points and knots
 exchanged

---
 src/common/material_library.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/common/material_library.cpp b/src/common/material_library.cpp
index 4263c50..b58933c 100644
--- a/src/common/material_library.cpp
+++ b/src/common/material_library.cpp
@@ -149,6 +149,17 @@ const auto team13 = R"(
    "reluctivity": {
       "bh": {
          "cps": [
+            0.0,
+            164.46362274610001,
+            301.3546318106,
+            161.7681804384,
+            961.7045565209,
+            27015.6213073554,
+            138424.0810362731,
+            196780.8935033237
+         ],
+         "degree": 3,
+         "knots": [
             0.0,
             0.0,
             0.0,
@@ -161,17 +172,6 @@ const auto team13 = R"(
             2.22,
             2.22,
             2.22
-         ],
-         "degree": 3,
-         "knots": [
-            0.0,
-            164.46362274610001,
-            301.3546318106,
-            161.7681804384,
-            961.7045565209,
-            27015.6213073554,
-            138424.0810362731,
-            196780.8935033237
          ]
       }
    },
-- 
2.43.0


From 1ab5ae318fe44dd6504b461ca48b2540669ce890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 25/45] fix: component given by attr used the default of magnet
 and core loss coefficients

---
 src/physics/electromagnetics/cal2_ke_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/cal2_kh_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/demag_flux_coefficient.cpp    | 4 ++--
 src/physics/electromagnetics/pm_demag_constraint_coeff.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index a7d7070..75db13f 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index 029cf72..aba0ae7 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/demag_flux_coefficient.cpp b/src/physics/electromagnetics/demag_flux_coefficient.cpp
index 6e88fff..51edacd 100644
--- a/src/physics/electromagnetics/demag_flux_coefficient.cpp
+++ b/src/physics/electromagnetics/demag_flux_coefficient.cpp
@@ -228,7 +228,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
@@ -251,7 +251,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
index d5006d4..c75f328 100644
--- a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
+++ b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
@@ -467,7 +467,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
@@ -492,7 +492,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
-- 
2.43.0


From 33980828f7db8ed91f6c1eced6aa9233789cfb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 26/45] fix: derivatives of the CAL2 loss coefficients at zero
 flux density

---
 .../electromagnetics/cal2_ke_coefficient.cpp     | 16 ++++++++--------
 .../electromagnetics/cal2_kh_coefficient.cpp     | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index 75db13f..b6adb48 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarEddyCurrentLossCoeff::EvalDerivS3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3(
 
    // double dke_T0_f_BdB_m = 0.0;
    double d2ke_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // dke_T0_f_BdB_m += i*ke_T0[i]*std::pow(B_m,i-1);
       d2ke_T0_f_BdB_m2 += (i - 1) * i * ke_T0[i] * std::pow(B_m, i - 2);
    }
    double dke_T1_f_BdB_m = 0.0;
    double d2ke_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // dke_T1_f_BdB_m += i*ke_T1[i]*std::pow(B_m,i-1);
       d2ke_T1_f_BdB_m2 += (i - 1) * i * ke_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS1S3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3S1(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index aba0ae7..242dfe1 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarHysteresisLossCoeff::EvalDerivS3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3(
 
    // double dkh_T0_f_BdB_m = 0.0;
    double d2kh_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // dkh_T0_f_BdB_m += i*kh_T0[i]*std::pow(B_m,i-1);
       d2kh_T0_f_BdB_m2 += (i - 1) * i * kh_T0[i] * std::pow(B_m, i - 2);
    }
    // double dkh_T1_f_BdB_m = 0.0;
    double d2kh_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // dkh_T1_f_BdB_m += i*kh_T1[i]*std::pow(B_m,i-1);
       d2kh_T1_f_BdB_m2 += (i - 1) * i * kh_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS1S3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3S1(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
-- 
2.43.0


From 563c300186d3352d26da08db722d5c6715bcb227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:47 +0000
Subject: [PATCH 27/45] fix: derivative of the B-H reluctivity at zero flux
 density

---
 .../electromagnetics/reluctivity_coefficient.cpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/reluctivity_coefficient.cpp b/src/physics/electromagnetics/reluctivity_coefficient.cpp
index 5e9f908..4334e0d 100644
--- a/src/physics/electromagnetics/reluctivity_coefficient.cpp
+++ b/src/physics/electromagnetics/reluctivity_coefficient.cpp
@@ -117,6 +117,8 @@ protected:
    std::unique_ptr<tinyspline::BSpline> bh;
    /// spline representing dH(B)/dB
    std::unique_ptr<tinyspline::BSpline> dbdh;
+   /// derivative of nu(B) at B = 0, i.e. half of d2H(B)/dB2
+   double dnudb_0 = 0.0;
 };
 
 class team13ReluctivityCoefficient : public miso::StateCoefficient
@@ -496,6 +498,11 @@ BHBSplineReluctivityCoefficient::BHBSplineReluctivityCoefficient(
    bh->setKnots(scaled_knots);
 
    dbdh = std::make_unique<tinyspline::BSpline>(bh->derive());
+   if (degree > 1)
+   {
+      dnudb_0 =
+          0.5 * dbdh->derive().eval(0.0).result()[0] / (b_max * b_max);
+   }
    // dnudb = nu.derive();
 }
 
@@ -531,8 +538,11 @@ double BHBSplineReluctivityCoefficient::EvalStateDeriv(
 {
    constexpr double nu0 = 1 / (4e-7 * M_PI);
 
-   /// TODO: handle state == 0
-   if (state <= b_max)
+   if (state <= 1e-14)
+   {
+      return dnudb_0;
+   }
+   else if (state <= b_max)
    {
       double t = state / b_max;
       double h = bh->eval(t).result()[0];
-- 
2.43.0


From f03cef4933475a266211699a981de0924e23cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 28/45] fix: stator current sources kept references to local
 variables

---
 src/physics/electromagnetics/current_source_functions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 596a771..6b1da0c 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -729,9 +729,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          if (source == "cwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
@@ -764,9 +764,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          else if (source == "ccwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
-- 
2.43.0


From 78a0cc1da62a120cf643fcfece71e9e524198174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 29/45] fix: restoring cached currents of a stator winding

---
 src/physics/electromagnetics/current_source_functions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 6b1da0c..f1c0ffe 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -664,9 +664,9 @@ void CurrentDensityCoefficient::zeroCurrentDensity()
 
 void CurrentDensityCoefficient::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
@@ -999,9 +999,9 @@ void CurrentDensityCoefficient2D::zeroCurrentDensity()
 
 void CurrentDensityCoefficient2D::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
-- 
2.43.0


From cf1c8cce331125239103fae7b6425501fedd178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 30/45] fix: inviscid manufactured solution was not the one its
 source belongs to

---
 src/physics/fluidflow/euler_fluxes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 29dae28..2e618d6 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1289,9 +1289,9 @@ void InviscidMMSExact(int dim, const xdouble *x, xdouble *u)
          const double scale = 1.0;
          const double T0    = 1.0;
          const double Tp    = 0.1;
-         u[0] = rho0 + rhop*(sin(M_PI*pow((x[0] + trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
-         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*(sin(M_PI*pow((x[0]+trans)/scale,2.0)));
-         u[2] = -up*(sin(2*M_PI*pow((x[0]+trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
+         u[0] = rho0 + rhop*pow(sin(M_PI*(x[0] + trans)/scale),2.0)*sin(M_PI*(x[1]+trans)/scale);
+         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*pow(sin(M_PI*(x[0]+trans)/scale),2.0);
+         u[2] = -up*pow(sin(2*M_PI*(x[0]+trans)/scale),2.0)*sin(M_PI*(x[1]+trans)/scale);
          u[3] = 0.0;
          double Tem  = T0 + Tp*(pow(((x[0]+trans)/scale),4.0) - 2.0*pow(((x[0]+trans)/scale),3.0) + pow(((x[0]+trans)/scale),2.0) 
                      + pow(((x[1]+trans)/scale),4.0) - 2.0*pow(((x[1]+trans)/scale),3.0) + pow(((x[1]+trans)/scale),2.0));
-- 
2.43.0


From ea91dd79ab2a315341b40938b28eea5c61595fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 31/45] fix: 3-D viscous manufactured solution read x[3]

---
 src/physics/fluidflow/navier_stokes_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 4347f77..3888c28 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -372,7 +372,7 @@ void viscousMMSExact(int dim, const xdouble *x, xdouble *u)
             const double w_0 = 0.5;
             const double T_0 = 1.0;
 
-            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[3]);
+            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[2]);
             u[1] = u_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[2] = v_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[3] = w_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
-- 
2.43.0


From 3f655c912b817e307c388620b2e431092a27a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 32/45] fix: 3-D viscous manufactured energy source lost the
 third velocity

---
 .../fluidflow/navier_stokes_fluxes.hpp        | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 3888c28..290fe67 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -489,35 +489,42 @@ void calcViscousMMS(int dim, double mu, double Pr, const xdouble *x, xdouble *sr
                 - 6*w_0*x[0]*(x[0] - 1)*(u_0*x[2]*(x[2] - 1) + w_0*x[0]*(x[0] - 1)) - 6*w_0*x[1]*(x[1] - 1)*(v_0*x[2]*(x[2] - 1) + w_0*x[1]*(x[1] - 1)) 
                 + 4.0*w_0*x[2]*(x[2] - 1)*(u_0*x[0]*(x[0] - 1) + v_0*x[1]*(x[1] - 1) - 2*w_0*x[2]*(x[2] - 1))) + r_0*u_0*x[0]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
-                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + 36*pow(x[2], 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
+                - 3*pow(x[2], 2), 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*u_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
+                - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*v_0*x[1]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
+                - 3*pow(x[2], 2), 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*v_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
+                - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*w_0*x[2]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
+                - 3*pow(x[2], 2), 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*w_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
                 + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
+                - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 2*x[2]*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(pow(u_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(v_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) 
-                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + 6)))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
+                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(w_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
             // src[0] = 10.0;
             // src[1] = 11.0;
             // src[2] = 12.0;
-- 
2.43.0


From 150ca51bb12dedddc198ddb47d38850a66644743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:24 +0000
Subject: [PATCH 33/45] fix: use the projector's quadrature rule for its mesh
 sensitivities

---
 src/utils/irrotational_projector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/irrotational_projector.cpp b/src/utils/irrotational_projector.cpp
index fb59dca..1e46cce 100644
--- a/src/utils/irrotational_projector.cpp
+++ b/src/utils/irrotational_projector.cpp
@@ -42,8 +42,11 @@ IrrotationalProjector::IrrotationalProjector(ParFiniteElementSpace &h1_fes,
    auto &mesh_fes = *x_nodes.ParFESpace();
    mesh_sens.Update(&mesh_fes);
 
+   /// the sensitivities must use the same quadrature as the forms themselves
+   diff_mesh_sens->SetIntRule(ir);
    mesh_sens.AddDomainIntegrator(diff_mesh_sens);
 
+   div_mesh_sens->SetIntRule(ir);
    mesh_sens.AddDomainIntegrator(div_mesh_sens);
 }
 
-- 
2.43.0


From ca03e1e17a4e47c62d431e603a69a4edec7e10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 34/45] fix: evaluate the entropy-conserving boundary flux into
 its own vector

---
 src/physics/fluidflow/euler_integ_def.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/euler_integ_def.hpp b/src/physics/fluidflow/euler_integ_def.hpp
index 6a8f8f8..a412a4a 100644
--- a/src/physics/fluidflow/euler_integ_def.hpp
+++ b/src/physics/fluidflow/euler_integ_def.hpp
@@ -611,9 +611,11 @@ double EntropyConserveBC<dim, entvar>::calcBndryFun(const mfem::Vector &x,
                                                     const mfem::Vector &dir,
                                                     const mfem::Vector &q)
 {
-   calcFlux(x, dir, q, work1);
+   // don't use work1 or work2 for flux here, since they are used in calcFlux
+   mfem::Vector flux_vec(q.Size());
+   calcFlux(x, dir, q, flux_vec);
    calcEntropyVars<double, dim, entvar>(q.GetData(), work2.GetData());
-   return work2 * work1;
+   return work2 * flux_vec;
 }
 
 template <int dim, bool entvar>
-- 
2.43.0


From 3bb86d50c33ad6dc4ca4af09e3c7624e61e1a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 35/45] fix: use the conservative variables for the pressure in
 the boundary entropy

---
 src/physics/fluidflow/euler_integ_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_integ_def.hpp b/src/physics/fluidflow/euler_integ_def.hpp
index a412a4a..2fedfc3 100644
--- a/src/physics/fluidflow/euler_integ_def.hpp
+++ b/src/physics/fluidflow/euler_integ_def.hpp
@@ -973,7 +973,9 @@ double BoundaryEntropy<dim, entvar>::calcBndryFun(const mfem::Vector &x,
 {
    // evaluate the entropy, then return the scaled value
    double S = entropy<double, dim, entvar>(q.GetData());
-   double press = pressure<double, dim>(q.GetData());
+   mfem::Vector qcons(q.Size());
+   calcConservativeVars<double, dim, entvar>(q.GetData(), qcons.GetData());
+   double press = pressure<double, dim>(qcons.GetData());
    S += euler::rho_ref*(press - euler::press_ref)/euler::press_ref;
    double scale = control_scale(len_scale, x_actuator, x);
    double dA = sqrt(dot<double, dim>(dir.GetData(), dir.GetData()));
-- 
2.43.0


From 265b64ac5fc7c976bc397cbf4f261a92f085d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 36/45] fix: size the inviscid element Jacobian by the number
 of states

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index 54a7a80..c32629b 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -123,9 +123,9 @@ void InviscidIntegrator<Derived>::AssembleElementGrad(
          {
             // get the entry of (Q^T)_{j,i} = Q_{i,j}
             double Q = alpha * sbp.getQ(di, i, j);
-            for (int n = 0; n < dim + 2; ++n)
+            for (int n = 0; n < num_states; ++n)
             {
-               for (int m = 0; m < dim + 2; ++m)
+               for (int m = 0; m < num_states; ++m)
                {
                   elmat(m * num_nodes + j, n * num_nodes + i) -=
                       Q * flux_jaci(m, n);
-- 
2.43.0


From 3b3ec7d1497b4fc02176b1419fcc4b18737040cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 37/45] fix: scale the LPS element Jacobian by the LPS
 coefficient

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index c32629b..1a5a411 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -410,7 +410,7 @@ void LPSIntegrator<Derived>::AssembleElementGrad(
          }
       }
    }
-   elmat *= alpha;
+   elmat *= alpha * lps_coeff;
 }
 
 template <typename Derived>
-- 
2.43.0


From 572998ec07e4b16eb42e998bd04dafdbb9dad0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 38/45] fix: scale all of the viscous boundary terms by alpha

---
 src/physics/fluidflow/viscous_integ_def.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/viscous_integ_def.hpp b/src/physics/fluidflow/viscous_integ_def.hpp
index b488822..42fdd02 100644
--- a/src/physics/fluidflow/viscous_integ_def.hpp
+++ b/src/physics/fluidflow/viscous_integ_def.hpp
@@ -444,7 +444,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceVector(
             for (int s = 0; s < num_states; ++s)
             {
                // Dwi(s,d) += Qij * wj(s);
-               res(j, s) += Qij * Dwi(s, d);
+               res(j, s) += alpha * Qij * Dwi(s, d);
             }
          }  // d loop
       }     // j loop
@@ -606,7 +606,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceGrad(
             {
                for (int sj = 0; sj < num_states; ++sj)
                {
-                  // res(j, s) += Qij * Dwi(s, d);
+                  // res(j, s) += alpha * Qij * Dwi(s, d);
                   elmat(sj * num_nodes + j, si * num_nodes + i) +=
                       Dij * fluxDw_jac[d](sj, si);
                }
@@ -614,6 +614,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceGrad(
          }  // d loop
       }     // j loop
    }        // k/i loop
+   elmat *= alpha;
 }
 
 }  // namespace miso
-- 
2.43.0


From 863cf083a11589e1d7ac482b790702104f12224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:49 +0000
Subject: [PATCH 39/45] fix: restrict domain integrators of nonlinear forms to
 the attributes given

---
 src/physics/miso_nonlinearform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/miso_nonlinearform.hpp b/src/physics/miso_nonlinearform.hpp
index 091d207..3c22674 100644
--- a/src/physics/miso_nonlinearform.hpp
+++ b/src/physics/miso_nonlinearform.hpp
@@ -237,10 +237,10 @@ void MISONonlinearForm::addDomainIntegrator(
     const std::vector<int> &bdr_attr_marker)
 {
    integs.emplace_back(*integrator);
-   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->bdr_attributes.Max();
+   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->attributes.Max();
    auto &marker = domain_markers.emplace_back(mesh_attr_size);
    attrVecToArray(bdr_attr_marker, marker);
-   nf.AddDomainIntegrator(integrator);
+   nf.AddDomainIntegrator(integrator, marker);
    addDomainSensitivityIntegrator(*integrator,
                                   nf_fields,
                                   rev_sens,
-- 
2.43.0


From fdba389f53f1ba50541ff7a844c2f6b993ce6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:49 +0000
Subject: [PATCH 40/45] fix: leave essential dofs out of the reverse products
 with scalars

---
 src/common/miso_linearform.cpp     | 6 ++++--
 src/physics/miso_nonlinearform.cpp | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/miso_linearform.cpp b/src/common/miso_linearform.cpp
index 94921b9..5ce71c7 100644
--- a/src/common/miso_linearform.cpp
+++ b/src/common/miso_linearform.cpp
@@ -93,9 +93,11 @@ double vectorJacobianProduct(MISOLinearForm &load,
    if (load.rev_scalar_sens.count(wrt) != 0)
    {
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
-      /// func so we update it here
+      /// func so we update it here. The load vanishes at the essential dofs
+      load.scratch = load_bar;
+      load.scratch.SetSubVector(load.getEssentialDofs(), 0.0);
       auto &adjoint = load.lf_fields->at(load.adjoint_name);
-      adjoint.distributeSharedDofs(load_bar);
+      adjoint.distributeSharedDofs(load.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index ed6284f..3cb68f5 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -260,9 +260,12 @@ double vectorJacobianProduct(MISONonlinearForm &form,
    if (form.rev_scalar_sens.count(wrt) != 0)
    {
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
-      /// func so we update it here
+      /// func so we update it here. The residual does not depend on the scalar
+      /// at the essential dofs
+      form.scratch = res_bar;
+      form.scratch.SetSubVector(form.getEssentialDofs(), 0.0);
       auto &adjoint = form.nf_fields.at(form.adjoint_name);
-      adjoint.distributeSharedDofs(res_bar);
+      adjoint.distributeSharedDofs(form.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
-- 
2.43.0


From cd7bc5d8eb16625ea3729a9a508296250d8eca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:49 +0000
Subject: [PATCH 41/45] fix: linearize nonlinear forms at the inputs given

---
 src/physics/miso_nonlinearform.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 3cb68f5..aa345af 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -92,14 +92,9 @@ void linearize(MISONonlinearForm &form, const MISOInputs &inputs)
 {
    std::cout << "In linearize!\n";
    setInputs(form, inputs);
-   if (form.jac.Ptr() == nullptr)
-   {
-      getJacobian(form, inputs, "state");
-   }
-   if (form.jac_trans == nullptr)
-   {
-      getJacobianTranspose(form, inputs, "state");
-   }
+   // a Jacobian assembled earlier may belong to another state or other inputs
+   getJacobian(form, inputs, "state");
+   getJacobianTranspose(form, inputs, "state");
 }
 
 mfem::Operator &getJacobian(MISONonlinearForm &form,
-- 
2.43.0


From b57d22f4fe4d6738e2d40d379f5ad73aaa674fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:29 +0000
Subject: [PATCH 42/45] fix: differentiate the Dirichlet rows of nonlinear
 forms

---
 src/physics/miso_nonlinearform.cpp | 34 ++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index aa345af..ffe285e 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -217,6 +217,15 @@ void jacobianVectorProduct(MISONonlinearForm &form,
                            const std::string &wrt,
                            mfem::Vector &res_dot)
 {
+   if (wrt == "dirichlet_bc" && form.nf_fields.count(wrt) != 0)
+   {
+      const auto &ess_tdof_list = form.getEssentialDofs();
+      for (int i = 0; i < ess_tdof_list.Size(); ++i)
+      {
+         res_dot(ess_tdof_list[i]) -= wrt_dot(ess_tdof_list[i]);
+      }
+   }
+
    if (wrt == "state")
    {
       form.scratch = wrt_dot;
@@ -240,6 +249,14 @@ void jacobianVectorProduct(MISONonlinearForm &form,
              "Jacobian matrices assembled to a HypreParMatrix!\n");
       }
       hypre_jac_e->Mult(1.0, wrt_dot, 1.0, res_dot);
+
+      if (form.nf_fields.count("dirichlet_bc") != 0)
+      {
+         for (int i = 0; i < ess_tdof_list.Size(); ++i)
+         {
+            res_dot(ess_tdof_list[i]) += wrt_dot(ess_tdof_list[i]);
+         }
+      }
    }
    else if (form.fwd_sens.count(wrt) != 0)
    {
@@ -275,6 +292,15 @@ void vectorJacobianProduct(MISONonlinearForm &form,
                            const std::string &wrt,
                            mfem::Vector &wrt_bar)
 {
+   if (wrt == "dirichlet_bc" && form.nf_fields.count(wrt) != 0)
+   {
+      const auto &ess_tdof_list = form.getEssentialDofs();
+      for (int i = 0; i < ess_tdof_list.Size(); ++i)
+      {
+         wrt_bar(ess_tdof_list[i]) -= res_bar(ess_tdof_list[i]);
+      }
+   }
+
    if (wrt == "state")
    {
       form.scratch = res_bar;
@@ -304,6 +330,14 @@ void vectorJacobianProduct(MISONonlinearForm &form,
       hypre_jac_e->MultTranspose(1.0, res_bar, 1.0, wrt_bar);
 
       // form.adjoint_jac_trans->Mult(res_bar, wrt_bar);
+
+      if (form.nf_fields.count("dirichlet_bc") != 0)
+      {
+         for (int i = 0; i < ess_tdof_list.Size(); ++i)
+         {
+            wrt_bar(ess_tdof_list[i]) += res_bar(ess_tdof_list[i]);
+         }
+      }
    }
    else if (form.rev_sens.count(wrt) != 0)
    {
-- 
2.43.0


From c7ba83da8c654040a7f2fed7451432d131982d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:33 +0000
Subject: [PATCH 43/45] fix: differentiate functional outputs with respect to
 the state they are evaluated on

---
 src/common/functional_output.cpp | 21 +++++++++++----------
 src/common/functional_output.hpp |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/common/functional_output.cpp b/src/common/functional_output.cpp
index 158e5dc..1d796a4 100644
--- a/src/common/functional_output.cpp
+++ b/src/common/functional_output.cpp
@@ -78,10 +78,10 @@ void calcOutputPartial(FunctionalOutput &output,
 {
    setInputs(output, inputs);
 
-   if (wrt == "state")
+   if (wrt == output.state_name)
    {
       Vector state;
-      setVectorFromInputs(inputs, "state", state, false, true);
+      setVectorFromInputs(inputs, output.state_name, state, false, true);
       output.output.Mult(state, partial);
    }
    else
@@ -96,10 +96,10 @@ double jacobianVectorProduct(FunctionalOutput &output,
                              const std::string &wrt)
 {
    output.scratch.SetSize(wrt_dot.Size());
-   if (wrt == "state")
+   if (wrt == output.state_name)
    {
       Vector state;
-      output.func_fields->at("state").setTrueVec(state);
+      output.func_fields->at(output.state_name).setTrueVec(state);
       output.output.Mult(state, output.scratch);
    }
    else
@@ -107,8 +107,9 @@ double jacobianVectorProduct(FunctionalOutput &output,
       if (wrt_dot.Size() == 1)
       {
          Vector state;
-         output.func_fields->at("state").setTrueVec(state);
-         const auto &state_gf = output.func_fields->at("state").gridFunc();
+         output.func_fields->at(output.state_name).setTrueVec(state);
+         const auto &state_gf =
+             output.func_fields->at(output.state_name).gridFunc();
 
          auto wrt_key = wrt.substr(0, wrt.find(':'));
          // output.scratch(0) =
@@ -133,8 +134,8 @@ double vectorJacobianProduct(FunctionalOutput &output,
                              const std::string &wrt)
 {
    // Vector state;
-   // output.func_fields->at("state").setTrueVec(state);
-   const auto &state_gf = output.func_fields->at("state").gridFunc();
+   // output.func_fields->at(output.state_name).setTrueVec(state);
+   const auto &state_gf = output.func_fields->at(output.state_name).gridFunc();
 
    auto wrt_key = wrt.substr(0, wrt.find(':'));
    // double sens = output.output_scalar_sens.at(wrt_key).GetEnergy(state);
@@ -151,10 +152,10 @@ void vectorJacobianProduct(FunctionalOutput &output,
                            mfem::Vector &wrt_bar)
 {
    output.scratch.SetSize(wrt_bar.Size());
-   if (wrt == "state")
+   if (wrt == output.state_name)
    {
       Vector state;
-      output.func_fields->at("state").setTrueVec(state);
+      output.func_fields->at(output.state_name).setTrueVec(state);
       output.output.Mult(state, output.scratch);
    }
    else
diff --git a/src/common/functional_output.hpp b/src/common/functional_output.hpp
index 5556364..e7eca40 100644
--- a/src/common/functional_output.hpp
+++ b/src/common/functional_output.hpp
@@ -124,7 +124,7 @@ public:
    FunctionalOutput(
        mfem::ParFiniteElementSpace &fes,
        std::unordered_map<std::string, mfem::ParGridFunction> &fields)
-    : output(&fes), func_fields(nullptr)
+    : output(&fes), func_fields(nullptr), state_name("state")
    { }
 
 protected:
-- 
2.43.0


From fe0d0371055fb748f13d91221e71214584030c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:27 +0000
Subject: [PATCH 44/45] fix: take the magnitude of a component's error in Lp
 norms

---
 src/physics/finite_element_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/finite_element_state.cpp b/src/physics/finite_element_state.cpp
index 7646152..bc86cd1 100644
--- a/src/physics/finite_element_state.cpp
+++ b/src/physics/finite_element_state.cpp
@@ -285,7 +285,7 @@ double calcLpError(const FiniteElementState &state,
       {
          const auto &ip = ir->IntPoint(j);
          T->SetIntPoint(&ip);
-         double ip_error = loc_errs(j);
+         double ip_error = fabs(loc_errs(j));
          if (p < mfem::infinity())
          {
             ip_error = pow(ip_error, p);
-- 
2.43.0


From 774aa87f425adc98106e9133774b2bb553f90405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:15 +0000
Subject: [PATCH 45/45] fix: project the curl of a 2D scalar field with its own
 sign

---
 src/utils/l2_transfer_operator.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/utils/l2_transfer_operator.cpp b/src/utils/l2_transfer_operator.cpp
index f35f7a0..e7a8eff 100644
--- a/src/utils/l2_transfer_operator.cpp
+++ b/src/utils/l2_transfer_operator.cpp
@@ -369,9 +369,7 @@ public:
 
             state_fe.CalcDShape(ip, curlshape);
             Mult(curlshape, trans.AdjugateJacobian(), scratch);
-            mfem::DenseMatrix tmp(
-                curlshape_dFt.GetData(), space_dim * state_dof, 1);
-            scratch.GradToCurl(tmp);
+            scratch.GradToVectorCurl2D(curlshape_dFt);
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -429,9 +427,7 @@ public:
 
             state_fe.CalcDShape(ip, curlshape);
             Mult(curlshape, trans.AdjugateJacobian(), scratch);
-            mfem::DenseMatrix tmp(
-                curlshape_dFt.GetData(), space_dim * state_dof, 1);
-            scratch.GradToCurl(tmp);
+            scratch.GradToVectorCurl2D(curlshape_dFt);
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -533,9 +529,7 @@ public:
          {
             state_fe.CalcDShape(ip, curlshape);
             Mult(curlshape, trans.AdjugateJacobian(), scratch);
-            mfem::DenseMatrix tmp(
-                curlshape_dFt.GetData(), space_dim * state_dof, 1);
-            scratch.GradToCurl(tmp);
+            scratch.GradToVectorCurl2D(curlshape_dFt);
          }
          curlshape_dFt.MultTranspose(el_state, curl_vec);
 
@@ -610,11 +604,8 @@ public:
             curlshape_dFt_bar.SetSize(state_dof, curl_dim);
             MultVWt(el_state, curl_vec_bar, curlshape_dFt_bar);
 
-            /// mfem::DenseMatrix tmp(curlshape_dFt.GetData(), space_dim *
-            /// state_dof, 1); scratch.GradToCurl(tmp);
-            mfem::DenseMatrix tmp(
-                scratch_bar.GetData(), space_dim * state_dof, 1);
-            curlshape_dFt_bar.GradToCurl(tmp);
+            /// scratch.GradToVectorCurl2D(curlshape_dFt);
+            curlshape_dFt_bar.GradToVectorCurl2D(scratch_bar);
             scratch_bar *= -1.0;
 
             /// Mult(curlshape, trans.AdjugateJacobian(), scratch);
-- 
2.43.0

