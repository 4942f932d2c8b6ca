// Functionals of one element and their derivatives.
#include <iostream>
#include <map>
#include <string>
#include "elem.hpp"
#include "coefficient.hpp"
#define private public
#define protected public
#include "mfem_common_integ.hpp"
#undef private
#undef protected
#include "elemcheck.hpp"   // uses sym_diff
extern "C" void h_fn_volume()
{
   el::Poly rho;
   Coefficient *p = sym_choice("density", 0, 0, 2) == 0 ? &rho : nullptr;
   VolumeIntegrator n(sym_choice("density", 0, 0, 2) == 2 ? nullptr : &p);
   el::Quad fe;
   functional<VolumeIntegrator, VolumeIntegratorMeshSens>(n, fe, 2, -2, 2);
}
extern "C" void h_fn_state()
{
   StateIntegrator n;
   el::Quad fe;
   functional<StateIntegrator, StateIntegratorMeshSens>(n, fe, 2, -2, 2);
}
extern "C" void h_fn_curl()
{
   MagnitudeCurlStateIntegrator n;
   el::Edge fe;
   functional<MagnitudeCurlStateIntegrator, MagnitudeCurlStateIntegratorMeshSens>(n, fe, 3, -2, 2, 1);
}
extern "C" void h_fn_ie_num()
{
   IEAggregateIntegratorNumerator n(3.0);
   n.true_max = sym_choice("moved", 0, 0, 1) ? 1.25 : sym_real_in("max", 0, 0.5, 2.0);
   el::Quad fe;
   functional<IEAggregateIntegratorNumerator, IEAggregateIntegratorNumeratorMeshSens>(n, fe, 2, 0.25, 2, 1);
}
extern "C" void h_fn_ie_den()
{
   IEAggregateIntegratorDenominator n(3.0);
   n.true_max = sym_choice("moved", 0, 0, 1) ? 1.25 : sym_real_in("max", 0, 0.5, 2.0);
   el::Quad fe;
   functional<IEAggregateIntegratorDenominator, IEAggregateIntegratorDenominatorMeshSens>(n, fe, 2, 0.25, 2, 1);
}
extern "C" void h_fn_iec_num()
{
   IECurlMagnitudeAggregateIntegratorNumerator n(3.0, sym_choice("moved", 0, 0, 1) ? 2.0 : sym_real_in("max", 0, 0.5, 2.0));
   el::Quad fe;
   functional<IECurlMagnitudeAggregateIntegratorNumerator, IECurlMagnitudeAggregateIntegratorNumeratorMeshSens>(n, fe, 2, 0.25, 2, 1);
}
extern "C" void h_fn_iec_den()
{
   IECurlMagnitudeAggregateIntegratorDenominator n(3.0, sym_choice("moved", 0, 0, 1) ? 2.0 : sym_real_in("max", 0, 0.5, 2.0));
   el::Quad fe;
   functional<IECurlMagnitudeAggregateIntegratorDenominator, IECurlMagnitudeAggregateIntegratorDenominatorMeshSens>(n, fe, 2, 0.25, 2, 1);
}
// ---- residuals of MFEM's integrators: psi^T R(u), written out here
extern "C" void h_rs_diffusion()
{
   Work w(2, 4, 4);
   el::Quad fe;
   el::Field u(fe, w.u, 4), p(fe, w.p, 4);
   const IntegrationRule &ir = el::rule(Geometry::SQUARE, 5);
   DiffusionIntegratorMeshSens s;
   s.setState(u);
   s.setAdjoint(p);
   s.SetIntRule(&ir);
   double J = 0.0;
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      w.e.T.SetIntPoint(&ir.IntPoint(i));
      DenseMatrix d(4, 2);
      fe.CalcPhysDShape(w.e.T, d);
      double gu[2] = {0, 0}, gp[2] = {0, 0};
      for (int k = 0; k < 4; ++k) { for (int c = 0; c < 2; ++c) { gu[c] += d(k, c) * w.u[k]; gp[c] += d(k, c) * w.p[k]; } }
      J += ir.IntPoint(i).weight * w.e.T.Weight() * dot3(gu, gp, 2);
   }
   mesh(J, s, w.e, "derivative of the diffusion residual with respect to the nodes");
   sym_reach("done");
}
extern "C" void h_rs_diffusion_rule()   // the rule of MFEM's own integrator
{
   Work w(2, 4, 4);
   el::Quad fe;
   el::Field u(fe, w.u, 4), p(fe, w.p, 4);
   const IntegrationRule &ir = el::rule(Geometry::SQUARE, 3);
   DiffusionIntegratorMeshSens s;
   s.setState(u);
   s.setAdjoint(p);
   Vector a, b;
   s.AssembleRHSElementVect(*w.e.mesh_fe, w.e.T, a);
   s.SetIntRule(&ir);
   s.AssembleRHSElementVect(*w.e.mesh_fe, w.e.T, b);
   for (int i = 0; i < 8; ++i) { sym_assert_eq(a(i), b(i), "the diffusion sensitivity uses the rule of the integrator"); }
   sym_reach("done");
}
extern "C" void h_rs_weakdiv()
{
   Work w(3, 6, 4);
   el::Edge nd;
   el::Tet h1;
   el::npoints = 1;
   el::Field u(nd, w.u, 6), p(h1, w.p, 4);
   const IntegrationRule &ir = el::rule(Geometry::TETRAHEDRON, 5);
   VectorFEWeakDivergenceIntegratorMeshSens s;
   s.setState(u);
   s.setAdjoint(p);
   s.SetIntRule(&ir);
   double J = 0.0;
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      w.e.T.SetIntPoint(&ir.IntPoint(i));
      DenseMatrix d(4, 3), v(6, 3);
      h1.CalcPhysDShape(w.e.T, d);
      nd.CalcVShape(w.e.T, v);
      double gp[3] = {0, 0, 0}, uu[3] = {0, 0, 0};
      for (int c = 0; c < 3; ++c) { for (int k = 0; k < 4; ++k) { gp[c] += d(k, c) * w.p[k]; } for (int k = 0; k < 6; ++k) { uu[c] += v(k, c) * w.u[k]; } }
      J -= ir.IntPoint(i).weight * w.e.T.Weight() * dot3(gp, uu, 3);
   }
   mesh(J, s, w.e, "derivative of the weak divergence with respect to the nodes");
   sym_reach("done");
}
extern "C" void h_rs_mass()
{
   Work w(3, 6, 6);
   el::Edge nd;
   el::npoints = 1;
   el::Field u(nd, w.u, 6), p(nd, w.p, 6);
   const IntegrationRule &ir = el::rule(Geometry::TETRAHEDRON, 5);
   const double alpha = sym_real_in("alpha", 0, -2, 2);
   VectorFEMassIntegratorMeshSens s(alpha);
   s.setState(u);
   s.setAdjoint(p);
   s.SetIntRule(&ir);
   double J = 0.0;
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      w.e.T.SetIntPoint(&ir.IntPoint(i));
      DenseMatrix v(6, 3);
      nd.CalcVShape(w.e.T, v);
      double a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
      for (int c = 0; c < 3; ++c) { for (int k = 0; k < 6; ++k) { a[c] += v(k, c) * w.p[k]; b[c] += v(k, c) * w.u[k]; } }
      J += alpha * ir.IntPoint(i).weight * w.e.T.Weight() * dot3(a, b, 3);
   }
   mesh(J, s, w.e, "derivative of the mass residual with respect to the nodes");
   sym_reach("done");
}
extern "C" void h_rs_vector_load()
{
   Work w(3, 0, 6);
   el::Edge nd;
   el::npoints = 2;
   el::VectorPoly F(3);
   el::Field p(nd, w.p, 6);
   const IntegrationRule &ir = el::rule(Geometry::TETRAHEDRON, 5);
   const double alpha = sym_real_in("alpha", 0, -2, 2);
   VectorFEDomainLFIntegratorMeshSens s(F, alpha);
   s.setAdjoint(p);
   s.SetIntRule(&ir);
   double J = 0.0;
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      w.e.T.SetIntPoint(&ir.IntPoint(i));
      DenseMatrix v(6, 3);
      Vector f;
      nd.CalcVShape(w.e.T, v);
      F.Eval(f, w.e.T, ir.IntPoint(i));
      for (int c = 0; c < 3; ++c) { for (int k = 0; k < 6; ++k) { J += alpha * ir.IntPoint(i).weight * w.e.T.Weight() * v(k, c) * w.p[k] * f(c); } }
   }
   mesh(J, s, w.e, "derivative of the vector load with respect to the nodes");
   sym_reach("done");
}
extern "C" void h_rs_curl_load()
{
   Work w(3, 0, 6);
   el::Edge nd;
   el::VectorPoly F(3);
   el::Field p(nd, w.p, 6);
   const IntegrationRule &ir = el::rule(Geometry::TETRAHEDRON, 5);
   miso::VectorFEDomainLFCurlIntegrator n(F, sym_real_in("alpha", 0, -2, 2));
   VectorFEDomainLFCurlIntegratorMeshSens s(n);
   s.setAdjoint(p);
   n.SetIntRule(&ir);
   s.SetIntRule(&ir);
   load(n, s, w, nd);
}
extern "C" void h_rs_load()
{
   const int map = sym_choice("map", 0, 0, 1) ? FiniteElement::INTEGRAL : FiniteElement::VALUE;
   Work w(2, 0, 4);
   el::Quad fe(map);
   el::Poly F;
   el::Field p(fe, w.p, 4);
   miso::DomainLFIntegrator n(F, sym_real_in("alpha", 0, -2, 2));
   DomainLFIntegratorMeshRevSens s(p, n);
   load(n, s, w, fe);
}
extern "C" void h_rs_domain_res()
{
   Work w(2, 0, 4);
   el::Quad fe;
   el::Poly F;
   el::Field p(fe, w.p, 4);
   DomainResIntegrator s(F, &p);
   const IntegrationRule &ir = el::rule(Geometry::SQUARE, 2);
   double J = 0.0;
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      w.e.T.SetIntPoint(&ir.IntPoint(i));
      Vector sh(4), P(w.p, 4);
      fe.CalcShape(ir.IntPoint(i), sh);
      J += ir.IntPoint(i).weight * w.e.T.Weight() * F.Eval(w.e.T, ir.IntPoint(i)) * (sh * P);
   }
   nodes(J, s, w.e, "derivative of the source residual with respect to the nodes");
   sym_reach("done");
}
extern "C" void h_rs_mass_res()
{
   Work w(2, 4, 4);
   el::Quad fe;
   el::Poly F(sym_real_in("q", 0, 0.5, 2), 0.0, 0.0);
   el::Field u(fe, w.u, 4), p(fe, w.p, 4);
   MassResIntegrator a(F, &u, &p), b(&u, &p);
   const bool q = sym_choice("coefficient", 0, 0, 1);
   const IntegrationRule &ir = el::rule(Geometry::SQUARE, 3);
   double J = 0.0;
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      w.e.T.SetIntPoint(&ir.IntPoint(i));
      Vector sh(4), P(w.p, 4), U(w.u, 4);
      fe.CalcShape(ir.IntPoint(i), sh);
      J += ir.IntPoint(i).weight * w.e.T.Weight() * (q ? F.a : 1.0) * (sh * P) * (sh * U);
   }
   nodes(J, q ? a : b, w.e, "derivative of the mass residual with respect to the nodes");
   sym_reach("done");
}
extern "C" void h_rs_diffusion_res()
{
   Work w(2, 4, 4);
   el::Quad fe;
   el::Poly F(sym_real_in("q", 0, 0.5, 2), 0.0, 0.0);
   el::Field u(fe, w.u, 4), p(fe, w.p, 4);
   DiffusionResIntegrator s(F, &u, &p);
   const IntegrationRule &ir = el::rule(Geometry::SQUARE, 3);
   double J = 0.0;
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      w.e.T.SetIntPoint(&ir.IntPoint(i));
      DenseMatrix d(4, 2);
      fe.CalcPhysDShape(w.e.T, d);
      double gu[2] = {0, 0}, gp[2] = {0, 0};
      for (int k = 0; k < 4; ++k) { for (int c = 0; c < 2; ++c) { gu[c] += d(k, c) * w.u[k]; gp[c] += d(k, c) * w.p[k]; } }
      J += F.a * ir.IntPoint(i).weight * w.e.T.Weight() * dot3(gu, gp, 2);
   }
   nodes(J, s, w.e, "derivative of the diffusion residual with respect to the nodes");
   Vector m, r;
   s.AssembleElementVector(*w.e.mesh_fe, w.e.T, m, m);
   static_cast<LinearFormIntegrator &>(s).AssembleRHSElementVect(*w.e.mesh_fe, w.e.T, r);
   for (int i = 0; i < 8; ++i) { sym_assert_eq(r(i), m(i), "both forms of the diffusion residual have the same derivative"); }
   sym_reach("done");
}
