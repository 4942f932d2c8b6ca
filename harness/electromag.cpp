// Electromagnetic integrators and their derivatives.
#include <iostream>
#include <map>
#include <string>
#include <unordered_set>
#include "elem.hpp"
#include "coefficient.hpp"
#define private public
#define protected public
#include "electromag_integ.hpp"
#undef private
#undef protected
#include "elemcheck.hpp"   // uses sym_diff
extern "C" void h_em_diffusion_grad()
{
   el::Element e(2, false);
   el::Quad fe;
   el::StatePoly nu;
   NonlinearDiffusionIntegrator n(nu, sym_real_in("alpha", 0, -2, 2));
   el::npoints = 1;
   double *u = el::unknowns("u", 4, -2, 2);
   el::flux(fe, e.T, u, Geometry::SQUARE);
   gradient(n, fe, e.T, u, 4);
   sym_reach("done");
}
extern "C" void h_em_diffusion_mesh()
{
   Work w(2, 4, 4);
   el::Quad fe;
   el::StatePoly nu;
   el::npoints = 1;
   el::Field u(fe, w.u, 4), p(fe, w.p, 4);
   NonlinearDiffusionIntegrator n(nu, sym_real_in("alpha", 0, -2, 2));
   NonlinearDiffusionIntegratorMeshRevSens s(u, p, n);
   el::flux(fe, w.e.T, w.u, Geometry::SQUARE);
   residual_mesh(n, s, fe, w);
   sym_reach("done");
}
extern "C" void h_em_curl_grad()
{
   el::Element e(3, false);
   el::Edge fe;
   el::StatePoly nu;
   CurlCurlNLFIntegrator n(nu, sym_real_in("alpha", 0, -2, 2));
   el::npoints = 1;
   double *u = el::unknowns("u", 6, -2, 2);
   el::flux(fe, e.T, u, Geometry::TETRAHEDRON);
   gradient(n, fe, e.T, u, 6);
   sym_reach("done");
}
extern "C" void h_em_curl_mesh()
{
   Work w(3, 6, 6);
   el::Edge fe;
   el::StatePoly nu;
   el::npoints = 1;
   el::Field u(fe, w.u, 6), p(fe, w.p, 6);
   CurlCurlNLFIntegrator n(nu, sym_real_in("alpha", 0, -2, 2));
   CurlCurlNLFIntegratorMeshRevSens s(u, p, n);
   el::flux(fe, w.e.T, w.u, Geometry::TETRAHEDRON);
   residual_mesh(n, s, fe, w);
   sym_reach("done");
}
extern "C" void h_em_curl_products()
{
   el::Element e(3, false);
   el::Edge fe;
   el::StatePoly nu;
   el::npoints = 1;
   double *x = el::unknowns("u", 6, -2, 2), *y = el::unknowns("psi", 6, -2, 2);
   el::Field u(fe, x, 6), p(fe, y, 6);
   CurlCurlNLFIntegrator n(nu);
   CurlCurlNLFIntegratorStateRevSens r(u, p, n);
   CurlCurlNLFIntegratorStateFwdSens f(u, p, n);
   DenseMatrix K;
   Vector U(x, 6), a, b;
   n.AssembleElementGrad(fe, e.T, U, K);
   r.AssembleRHSElementVect(fe, e.T, a);
   f.AssembleRHSElementVect(fe, e.T, b);
   for (int i = 0; i < 6; ++i)
   {
      double s = 0.0, t = 0.0;
      for (int j = 0; j < 6; ++j) { s += K(j, i) * y[j]; t += K(i, j) * y[j]; }
      sym_assert_eq(a(i), s, "reverse product is the product with the transpose of the element matrix");
      sym_assert_eq(b(i), t, "forward product is the product with the element matrix");
   }
   sym_reach("done");
}
extern "C" void h_em_energy()
{
   el::Quad fe;
   el::StatePoly nu;
   MagneticEnergyIntegrator n(nu);
   functional<MagneticEnergyIntegrator, MagneticEnergyIntegratorMeshSens>(n, fe, 2, -2, 2, 1);
}
extern "C" void h_em_magnet()
{
   Work w(2, 4, 4);
   el::Quad fe;
   el::VectorStatePoly M(2);
   el::npoints = 1;
   el::Field t(fe, w.u, 4), p(fe, w.p, 4);
   MagnetizationSource2DIntegrator n(M, t, sym_real_in("alpha", 0, -2, 2));
   MagnetizationSource2DIntegratorMeshRevSens s(p, n);
   MagnetizationSource2DIntegratorTemperatureSens d(p, n);
   const double J = weighted(n, fe, w.e.T, w.p);
   mesh(J, s, w.e);
   field(J, d, fe, w.e.T, w.u, 4, "derivative of the magnet source with respect to temperature");
   sym_reach("done");
}
