#include <cmath>
#include "adept.h"
#include "mfem.hpp"
#include "euler_integ.hpp"
#include "navier_stokes_fluxes.hpp"
#include "navier_stokes_integ.hpp"
#include "sym.h"
using namespace miso;
// pointwise fluxes of the flow integrators and the derivatives they hand to the
// assembly, both for conservative and for entropy variables (sym_diff)
template <int n> static void eqs(const double *a, const double *b, const char *l) { for (int i = 0; i < n; ++i) { sym_assert_eq(a[i], b[i], l); } }
template <int n> static double dt(const double *a, const double *b) { double r = 0.0; for (int i = 0; i < n; ++i) { r += a[i] * b[i]; } return r; }
// a state given by its conservative or by its entropy variables
template <int dim, bool ent>
struct Q
{
   static const int n = dim + 2;
   double q[n], w[n], c[n];   // as given, entropy, conservative
   mfem::Vector v;
   Q() : Q(0) { }
   explicit Q(int k)
   {
      if constexpr (ent)
      {
         for (int i = 1; i <= dim; ++i) { q[i] = sym_real_in("w", 10 * k + i, -2.0, 2.0); }
         q[0] = sym_real_in("w", 10 * k, -4.0, 8.0);
         q[n - 1] = sym_real_in("w", 10 * k + n - 1, -8.0, -0.1);
      }
      else
      {
         q[0] = sym_real_in("q", 10 * k, 0.1, 8.0);
         for (int i = 1; i <= dim; ++i) { q[i] = sym_real_in("q", 10 * k + i, -3.0, 3.0); }
         q[n - 1] = sym_real_in("q", 10 * k + n - 1, 1.0, 60.0);
         sym_assume(pressure<double, dim>(q) > 0.05);
      }
      calcEntropyVars<double, dim, ent>(q, w);
      calcConservativeVars<double, dim, ent>(q, c);
      v.SetSize(n);
      for (int i = 0; i < n; ++i) { v(i) = q[i]; }
   }
};
template <int dim>
struct At
{
   double d[dim];
   mfem::Vector x, dir;
   At() : x(dim), dir(dim)
   {
      for (int i = 0; i < dim; ++i) { x(i) = sym_real_in("x", i, 0.5, 2.0); dir(i) = d[i] = sym_real_in("dir", i, -2.0, 2.0); }
      sym_assume(dir * dir > 0.01);
   }
};
template <int n> static void jac(const mfem::DenseMatrix &J, const mfem::Vector &f, const double *z, int m, const char *l)
{
   for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { sym_assert_eq(J(i, j), sym_diff(f(i), z[j]), l); } }
}
template <class BC, int dim, bool ent>
static void bndry(BC &bc, const At<dim> &a, const Q<dim, ent> &s, const double *want)
{
   const int n = dim + 2;
   mfem::DenseMatrix J(n), D(n, dim);
   mfem::Vector f(n);
   // the order of the calls must not matter: the integrators share work space
   bc.calcFluxJacState(a.x, a.dir, s.v, J);
   bc.calcFluxJacDir(a.x, a.dir, s.v, D);
   bc.calcFlux(a.x, a.dir, s.v, f);
   eqs<n>(f.GetData(), want, "boundary flux");
   jac<n>(J, f, s.q, n, "derivative of the boundary flux with respect to the state");
   jac<n>(D, f, a.d, dim, "derivative of the boundary flux with respect to the normal");
   sym_assert_eq(bc.calcBndryFun(a.x, a.dir, s.v), dt<n>(s.w, f.GetData()), "entropy through the boundary");
   sym_observe("f", f(n - 1));
   sym_reach("done");
}
template <int dim> static void flux()
{
   const int n = dim + 2;
   Q<dim, false> s;
   At<dim> a;
   EulerIntegrator<dim> in(getDiffStack());
   mfem::DenseMatrix J(n), D(n, dim);
   mfem::Vector f(n);
   double g[n];
   in.calcFluxJacState(a.dir, s.v, J);
   in.calcFluxJacDir(a.dir, s.v, D);
   in.calcFlux(a.dir, s.v, f);
   calcEulerFlux<double, dim>(a.d, s.q, g);
   eqs<n>(f.GetData(), g, "the flux is the Euler flux");
   jac<n>(J, f, s.q, n, "derivative of the flux with respect to the state");
   jac<n>(D, f, a.d, dim, "derivative of the flux with respect to the direction");
   sym_observe("f", f(n - 1));
   sym_reach("done");
}
template <int dim, bool ent> static void dyadic()
{
   const int n = dim + 2;
   Q<dim, ent> L(0), R(1);
   IsmailRoeIntegrator<dim, ent> in(getDiffStack());
   const int d = sym_choice("direction", 0, 0, dim - 1);
   mfem::DenseMatrix JL(n), JR(n);
   mfem::Vector f(n);
   in.calcFluxJacStates(d, L.v, R.v, JL, JR);
   in.calcFlux(d, L.v, R.v, f);
   double g[n];
   if (ent) { calcIsmailRoeFluxUsingEntVars<double, dim>(d, L.q, R.q, g); }
   else { calcIsmailRoeFlux<double, dim>(d, L.q, R.q, g); }
   eqs<n>(f.GetData(), g, "the two-point flux");
   jac<n>(JL, f, L.q, n, "derivative of the two-point flux with respect to the left state");
   jac<n>(JR, f, R.q, n, "derivative of the two-point flux with respect to the right state");
   sym_observe("f", f(n - 1));
   sym_reach("done");
}
template <int dim, bool ent> static void face()
{
   const int n = dim + 2;
   Q<dim, ent> L(0), R(1);
   At<dim> a;
   const double c = sym_real_in("coefficient", 0, 0.0, 2.0);
   InterfaceIntegrator<dim, ent> in(getDiffStack(), c, nullptr);
   mfem::DenseMatrix JL(n), JR(n), D(n, dim);
   mfem::Vector f(n);
   double g[n], dw[n];
   in.calcFluxJacState(a.dir, L.v, R.v, JL, JR);
   in.calcFluxJacDir(a.dir, L.v, R.v, D);
   in.calcFlux(a.dir, L.v, R.v, f);
   if (ent) { calcIsmailRoeFaceFluxWithDissUsingEntVars<double, dim>(a.d, c, L.q, R.q, g); }
   else { calcIsmailRoeFaceFluxWithDiss<double, dim>(a.d, c, L.q, R.q, g); }
   eqs<n>(f.GetData(), g, "the interface flux");
   jac<n>(JL, f, L.q, n, "derivative of the interface flux with respect to the left state");
   jac<n>(JR, f, R.q, n, "derivative of the interface flux with respect to the right state");
   jac<n>(D, f, a.d, dim, "derivative of the interface flux with respect to the normal");
   for (int i = 0; i < n; ++i) { dw[i] = L.w[i] - R.w[i]; }
   sym_assert_eq(in.calcIFaceFun(a.dir, L.v, R.v), dt<n>(dw, f.GetData()), "entropy through the interface");
   sym_observe("f", f(n - 1));
   sym_reach("done");
}
template <int dim, bool ent> static void lps()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   EntStableLPSIntegrator<dim, ent> in(getDiffStack());
   double A[dim * dim], V[n], g[n];
   mfem::DenseMatrix adj(dim), J(n), JA(n, dim * dim), JV(n);
   mfem::Vector vec(n), f(n), w(n);
   for (int i = 0; i < dim * dim; ++i) { adj.GetData()[i] = A[i] = sym_real_in("adj", i, -2.0, 2.0); }
   for (int d = 0; d < dim; ++d) { double r = 0.0; for (int i = 0; i < dim; ++i) { r += A[d * dim + i] * A[d * dim + i]; } sym_assume(r > 0.01); }
   for (int i = 0; i < n; ++i) { vec(i) = V[i] = sym_real_in("v", i, -2.0, 2.0); }
   in.applyScalingJacState(adj, s.v, vec, J);
   in.applyScalingJacAdjJ(adj, s.v, vec, JA);
   in.applyScalingJacV(adj, s.v, JV);
   in.applyScaling(adj, s.v, vec, f);
   if (ent) { applyLPSScalingUsingEntVars<double, dim>(A, s.q, V, g); }
   else { applyLPSScaling<double, dim>(A, s.q, V, g); }
   eqs<n>(f.GetData(), g, "the stabilization scales with the spectral radius");
   jac<n>(J, f, s.q, n, "derivative of the stabilization with respect to the state");
   jac<n>(JA, f, A, dim * dim, "derivative of the stabilization with respect to the mapping");
   jac<n>(JV, f, V, n, "derivative of the stabilization with respect to the vector");
   mfem::DenseMatrix W(n);
   in.convertVarsJacState(s.v, W);
   in.convertVars(s.v, w);
   eqs<n>(w.GetData(), s.w, "stabilization acts on entropy variables");
   jac<n>(W, w, s.q, n, "derivative of the entropy variables");
   if (!ent) { sym_observe("f", f(n - 1)); }
   sym_reach("done");
}
template <int dim, bool ent> static void mass()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   MassIntegrator<dim, ent> in(getDiffStack());
   mfem::DenseMatrix J(n);
   mfem::Vector q(n);
   in.convertVarsJacState(s.v, J);
   in.convertVars(s.v, q);
   eqs<n>(q.GetData(), s.c, "the time term is that of the conservative variables");
   jac<n>(J, q, s.q, n, "derivative of the conservative variables");
   sym_reach("done");
}
template <int dim, bool ent> static void wall()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   At<dim> a;
   SlipWallBC<dim, ent> bc(getDiffStack(), nullptr);
   double g[n];
   calcSlipWallFlux<double, dim, false>(a.x.GetData(), a.d, s.c, g);
   bndry(bc, a, s, g);
}
template <int dim> static mfem::Vector reference()
{
   mfem::Vector r(dim + 2);
   r(0) = sym_real_in("ref", 0, 0.5, 2.0);
   for (int i = 1; i <= dim; ++i) { r(i) = sym_real_in("ref", i, -0.5, 0.5); }
   r(dim + 1) = sym_real_in("ref", dim + 1, 2.0, 4.0);
   return r;
}
template <int dim, bool ent> static void far()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   At<dim> a;
   mfem::Vector r = reference<dim>();
   FarFieldBC<dim, ent> bc(getDiffStack(), nullptr, r);
   double g[n], work[n];
   calcFarFieldFlux<double, dim, false>(a.d, r.GetData(), s.c, work, g);
   bndry(bc, a, s, g);
}
template <bool ent> static void vortex()
{
   Q<2, ent> s;
   At<2> a;
   IsentropicVortexBC<2, ent> bc(getDiffStack(), nullptr);
   double g[4];
   calcIsentropicVortexFlux<double, false>(a.x.GetData(), a.d, s.c, g);
   bndry(bc, a, s, g);
}
template <int dim, bool ent> static void conserve()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   At<dim> a;
   const double t = sym_real_in("time", 0, 0.0, 1.0);
   mfem::Vector r = reference<dim>();
   EntropyConserveBC<dim, ent> bc(getDiffStack(), nullptr, [&](double time, const mfem::Vector &x, mfem::Vector &q)
   {
      q = r;
      q(0) = r(0) + 0.25 * time * x(0);
   });
   MISOInputs in{{"time", t}};
   setInputs(bc, in);
   double b[n], g[n];
   for (int i = 0; i < n; ++i) { b[i] = r(i); }
   b[0] += 0.25 * t * a.x(0);
   calcBoundaryFluxEC<double, dim>(a.d, b, s.c, dt<dim>(b + 1, a.d) / b[0] * entropy<double, dim, false>(b), g);
   bndry(bc, a, s, g);
}
template <int dim, bool ent> static void control()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   At<dim> a;
   const double u = sym_real_in("control", 0, -1.0, 1.0), len = sym_real_in("length", 0, 0.5, 2.0);
   mfem::Vector xc(dim);
   for (int i = 0; i < dim; ++i) { xc(i) = sym_real_in("actuator", i, -1.0, 1.0); }
   mfem::Vector zero(dim);
   zero = 0.0;
   ControlBC<dim, ent> bc(getDiffStack(), nullptr, [](double l, const mfem::Vector &c, const mfem::Vector &x) { return 1.0 + l * (x(0) - c(0)); }, zero, len);
   MISOInputs in{{"control", u}, {"x-actuator", InputVector(xc)}};
   setInputs(bc, in);
   double g[n];
   calcControlFlux<double, dim>(a.d, s.c, u * (1.0 + len * (a.x(0) - xc(0))), g);
   bndry(bc, a, s, g);
}
// quantities of interest
template <int dim, bool ent> static void outputs()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   At<dim> a;
   mfem::Vector nrm(dim), g(n);
   for (int i = 0; i < dim; ++i) { nrm(i) = sym_real_in("force", i, -1.0, 1.0); }
   PressureForce<dim, ent> pf(getDiffStack(), nullptr, nrm);
   double p = pressure<double, dim>(s.c);
   pf.calcFlux(a.x, a.dir, s.v, g);
   double v = pf.calcBndryFun(a.x, a.dir, s.v), f[n];
   calcSlipWallFlux<double, dim, false>(a.x.GetData(), a.d, s.c, f);
   sym_assert_eq(v, dt<dim>(nrm.GetData(), f + 1), "force along the requested direction");
   for (int j = 0; j < n; ++j) { sym_assert_eq(g(j), sym_diff(v, s.q[j]), "derivative of the force with respect to the state"); }
   EntropyIntegrator<dim, ent> ei(getDiffStack());
   double S = entropy<double, dim, false>(s.c);
   sym_assert_eq(ei.calcVolFun(a.x, s.v), S, "total entropy");
   sym_observe("v", v);
   sym_reach("done");
}
template <int dim, bool ent> static void weighted()
{
   const int n = dim + 2;
   Q<dim, ent> s;
   At<dim> a;
   const double len = sym_real_in("length", 0, 0.5, 2.0);
   mfem::Vector xc(dim);
   for (int i = 0; i < dim; ++i) { xc(i) = sym_real_in("actuator", i, -1.0, 1.0); }
   mfem::Vector zero(dim);
   zero = 0.0;
   BoundaryEntropy<dim, ent> be(getDiffStack(), nullptr, [](double l, const mfem::Vector &c, const mfem::Vector &x) { return 1.0 + l * (x(0) - c(0)); }, zero, len);
   MISOInputs in{{"x-actuator", InputVector(xc)}};
   setInputs(be, in);
   double p = pressure<double, dim>(s.c);
   double S = entropy<double, dim, false>(s.c) + euler::rho_ref * (p - euler::press_ref) / euler::press_ref;
   sym_assert_eq(be.calcBndryFun(a.x, a.dir, s.v), (1.0 + len * (a.x(0) - xc(0))) * S * sqrt(a.dir * a.dir), "weighted boundary entropy");
   mfem::Vector r = reference<dim>();
   if constexpr (!ent)
   {
      SupplyRate<dim, ent> sr(getDiffStack(), nullptr, r);
      double g[n], work[n];
      calcFarFieldFlux2<double, dim, false>(a.d, r.GetData(), s.c, work, g);
      sym_assert_eq(sr.calcBndryFun(a.x, a.dir, s.v), dt<dim>(a.d, s.c + 1) - dt<n>(s.w, g), "supply rate");
   }
   sym_reach("done");
}
#define CONS(n) extern "C" void h_##n##_1() { n<1>(); } extern "C" void h_##n##_2() { n<2>(); } extern "C" void h_##n##_3() { n<3>(); }
#define BOTH(n) extern "C" void h_##n##_c1() { n<1, false>(); } extern "C" void h_##n##_c2() { n<2, false>(); } extern "C" void h_##n##_c3() { n<3, false>(); } \
                extern "C" void h_##n##_e1() { n<1, true>(); } extern "C" void h_##n##_e2() { n<2, true>(); } extern "C" void h_##n##_e3() { n<3, true>(); }
CONS(flux) BOTH(dyadic) BOTH(face) BOTH(lps) BOTH(mass) BOTH(wall) BOTH(far) BOTH(conserve) BOTH(control) BOTH(outputs) BOTH(weighted)
extern "C" void h_vortex_c() { vortex<false>(); }
extern "C" void h_vortex_e() { vortex<true>(); }
