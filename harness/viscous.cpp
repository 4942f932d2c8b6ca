#include <cmath>
#include "adept.h"
#include "mfem.hpp"
#include "euler_integ.hpp"
#include "navier_stokes_fluxes.hpp"
#include "navier_stokes_integ.hpp"
#include "sym.h"
using namespace miso;
static const double G = 1.4, G1 = 0.4;
template <int n> static void eqs(const double *a, const double *b, const char *l) { for (int i = 0; i < n; ++i) { sym_assert_eq(a[i], b[i], l); } }
template <int n> static double dt(const double *a, const double *b) { double r = 0.0; for (int i = 0; i < n; ++i) { r += a[i] * b[i]; } return r; }
// a state, the gradients of its density, velocity and temperature, and the
// gradient of the entropy variables that goes with them
template <int dim>
struct V
{
   static const int n = dim + 2;
   double rho, T, p, u[dim], q[n], dr[dim], dT[dim], du[dim][dim], Dw[n * dim], mu, Pr;
   explicit V(bool rest = false)
   {
      rho = sym_real_in("rho", 0, 0.1, 8.0);
      T = sym_real_in("T", 0, 0.1, 8.0);
      mu = sym_real_in("mu", 0, 0.01, 4.0);
      Pr = sym_real_in("Pr", 0, 0.1, 10.0);
      p = rho * T;
      double k = 0.0;
      for (int i = 0; i < dim; ++i) { u[i] = rest ? 0.0 : sym_real_in("u", i, -3.0, 3.0); k += u[i] * u[i]; q[i + 1] = rho * u[i]; }
      q[0] = rho;
      q[n - 1] = p / G1 + 0.5 * rho * k;
      for (int j = 0; j < dim; ++j)
      {
         dr[j] = sym_real_in("drho", j, -4.0, 4.0);
         dT[j] = sym_real_in("dT", j, -4.0, 4.0);
         // w = (g - s)/(g-1) - k/2T, u/T, -1/T with s = log(T) - (g-1) log(rho)
         Dw[j * n] = -(dT[j] / T - G1 * dr[j] / rho) / G1 + 0.5 * k * dT[j] / (T * T);
         for (int i = 0; i < dim; ++i)
         {
            du[i][j] = sym_real_in("du", 4 * i + j, -4.0, 4.0);
            Dw[j * n] -= u[i] * du[i][j] / T;
            Dw[j * n + i + 1] = du[i][j] / T - u[i] * dT[j] / (T * T);
         }
         Dw[j * n + n - 1] = dT[j] / (T * T);
      }
   }
   double div() const { double r = 0.0; for (int i = 0; i < dim; ++i) { r += du[i][i]; } return r; }
   double tau(int i, int j) const { return mu * (du[i][j] + du[j][i] - (i == j ? 2.0 / 3.0 * div() : 0.0)); }
   double kappa() const { return G * mu / (G1 * Pr); }
   // sum_d dir_d * viscous flux in direction d, with the gradients given
   void flux(const double *dir, const double *D, double *f) const
   {
      for (int k = 0; k < n; ++k) { f[k] = 0.0; }
      for (int d = 0; d < dim; ++d)
      {
         double g[n];
         applyViscousScaling<double, dim>(d, mu, Pr, q, D, g);
         for (int k = 0; k < n; ++k) { f[k] += dir[d] * g[k]; }
      }
   }
};
template <int dim>
struct Dir
{
   double d[dim], n2 = 0.0;
   Dir() { for (int i = 0; i < dim; ++i) { d[i] = sym_real_in("dir", i, -2.0, 2.0); n2 += d[i] * d[i]; } sym_assume(n2 > 0.01); }
};
template <int dim> static void flux()
{
   const int n = dim + 2;
   V<dim> s;
   double F[dim][n], e = 0.0;
   for (int d = 0; d < dim; ++d)
   {
      applyViscousScaling<double, dim>(d, s.mu, s.Pr, s.q, s.Dw, F[d]);
      sym_assert_eq(F[d][0], 0.0, "viscosity does not move mass");
      double q = s.kappa() * s.dT[d];
      for (int i = 0; i < dim; ++i)
      {
         sym_assert_eq(F[d][i + 1], s.tau(i, d), "viscous stress");
         q += s.u[i] * s.tau(i, d);
      }
      sym_assert_eq(F[d][n - 1], q, "work of the stress and heat flux");
      e += dt<n>(s.Dw + d * n, F[d]);
   }
   // dissipation of entropy: heat conduction and the trace-free stress
   double r = 0.0, m = s.div() / 3.0, dev = (3 - dim) * m * m;
   for (int i = 0; i < dim; ++i)
   {
      r += s.kappa() * s.dT[i] * s.dT[i] / (s.T * s.T);
      dev += (s.du[i][i] - m) * (s.du[i][i] - m);
      for (int j = 0; j < i; ++j) { double t = s.du[i][j] + s.du[j][i]; dev += 0.5 * t * t; }
   }
   sym_assert_eq(e, r + 2.0 * s.mu / s.T * dev, "the viscous terms dissipate entropy");
   sym_observe("e", e);
   sym_reach("done");
}
template <int dim> static void cij()
{
   const int n = dim + 2;
   V<dim> s;
   double v[n], z[n], a[n], b[n], ini[n];
   const int i = sym_choice("i", 0, 0, dim - 1), j = sym_choice("j", 0, 0, dim - 1);
   for (int k = 0; k < n; ++k) { v[k] = sym_real_in("v", k, -2.0, 2.0); z[k] = sym_real_in("z", k, -2.0, 2.0); ini[k] = sym_real_in("ini", k, -2.0, 2.0); a[k] = 0.0; b[k] = 0.0; }
   applyCijMatrix<double, dim>(i, j, s.mu, s.Pr, s.q, v, a);
   applyCijMatrix<double, dim>(j, i, s.mu, s.Pr, s.q, z, b);
   sym_assert_eq(dt<n>(z, a), dt<n>(v, b), "the coefficient matrices are symmetric");
   double c[n];
   for (int k = 0; k < n; ++k) { c[k] = ini[k]; }
   applyCijMatrix<double, dim>(i, j, s.mu, s.Pr, s.q, v, c);
   for (int k = 0; k < n; ++k) { sym_assert_eq(c[k], ini[k] + a[k], "products are accumulated"); }
   sym_observe("a", a[n - 1]);
   sym_reach("done");
}
template <int dim> static void wall()
{
   const int n = dim + 2;
   V<dim> s;
   Dir<dim> d;
   double f[n], g[n], D[n * dim], Z[n * dim], dn[n];
   calcAdiabaticWallFlux<double, dim>(d.d, s.mu, s.Pr, s.q, s.Dw, f);
   for (int k = 0; k < n; ++k)
   {
      dn[k] = 0.0;
      for (int j = 0; j < dim; ++j) { dn[k] += s.Dw[j * n + k] * d.d[j]; }
   }
   for (int j = 0; j < dim; ++j)
   {
      for (int k = 0; k < n; ++k)
      {
         Z[j * n + k] = s.Dw[j * n + k] - d.d[j] * dn[k] / d.n2;
         D[j * n + k] = k == n - 1 ? Z[j * n + k] : s.Dw[j * n + k];
      }
   }
   s.flux(d.d, D, g);
   eqs<n>(f, g, "the adiabatic wall removes the normal temperature gradient only");
   setZeroNormalDeriv<double, dim>(d.d, s.Dw, D);
   eqs<n * dim>(D, Z, "the normal derivative is removed");
   // at rest
   V<dim> r(true);
   calcAdiabaticWallFlux<double, dim>(d.d, r.mu, r.Pr, r.q, r.Dw, f);
   sym_assert_eq(f[n - 1], 0.0, "no heat flows through an adiabatic wall at rest");
   for (int i = 0; i < dim; ++i)
   {
      double t = 0.0;
      for (int j = 0; j < dim; ++j) { t += d.d[j] * r.tau(i, j); }
      sym_assert_eq(f[i + 1], t, "traction on an adiabatic wall at rest");
   }
   sym_observe("f", f[1]);
   sym_reach("done");
}
template <int dim> static void penalty()
{
   const int n = dim + 2;
   V<dim> s;
   Dir<dim> d;
   double J = sym_real_in("jac", 0, 0.1, 4.0), uc = sym_real_in("uc", 0, -2.0, 2.0), Tf = sym_real_in("Tf", 0, 0.1, 8.0), rf = sym_real_in("rf", 0, 0.1, 8.0);
   double qf[n], f[n], h[n], w[n], dl = sqrt(d.n2), k2 = 0.0;
   qf[0] = rf;
   qf[n - 1] = rf * Tf / G1;
   for (int i = 0; i < dim; ++i) { double v = sym_real_in("uf", i, -3.0, 3.0); qf[i + 1] = rf * v; qf[n - 1] += 0.5 * rf * v * v; k2 += s.u[i] * s.u[i]; }
   calcNoSlipPenaltyFlux<double, dim>(d.d, J, s.mu, s.Pr, qf, s.q, f);
   sym_assert_eq(f[0], 0.0, "the no-slip penalty does not move mass");
   sym_assert_eq(f[n - 1], 0.0, "the no-slip penalty does not move energy");
   double c = s.mu * Tf * (dim + 1.0 / 3.0) * dl / (J * s.T);
   for (int i = 0; i < dim; ++i) { sym_assert_eq(f[i + 1], c * s.u[i], "the no-slip penalty opposes the velocity at the wall"); }
   calcEntropyVars<double, dim, false>(s.q, w);
   sym_assert_eq(dt<n>(w, f), c * k2 / s.T, "the no-slip penalty dissipates entropy");
   calcControlPenaltyFlux<double, dim>(d.d, J, s.mu, s.Pr, uc, qf, s.q, h);
   sym_assert_eq(h[0], 0.0, "the control penalty does not move mass");
   sym_assert_eq(h[n - 1], 0.0, "the control penalty does not move energy");
   for (int i = 0; i < dim; ++i) { sym_assert_eq(h[i + 1], c * (s.u[i] - uc * d.d[i] / dl), "the control penalty opposes the difference to the control velocity"); }
   sym_observe("f", f[1]);
   sym_reach("done");
}
// the dual flux pairs with any gradient as minus the wall flux of that gradient
// pairs with the velocity penalty
template <int dim> static void dual()
{
   const int n = dim + 2;
   V<dim> s;
   Dir<dim> d;
   double F[n * dim], f[n], dw[n];
   for (int k = 0; k < n; ++k) { dw[k] = k > 0 && k <= dim ? s.u[k - 1] / s.T : 0.0; }
   calcNoSlipDualFlux<double, dim>(d.d, s.mu, s.Pr, s.q, F);
   calcAdiabaticWallFlux<double, dim>(d.d, s.mu, s.Pr, s.q, s.Dw, f);
   sym_assert_eq(dt<n * dim>(F, s.Dw), -dt<n>(dw, f), "the dual flux is the transpose of the wall flux");
   double hn = 0.0;
   for (int j = 0; j < dim; ++j) { hn += F[j * n + n - 1] * d.d[j]; }
   sym_assert_eq(hn, 0.0, "the dual flux carries no heat through the wall");
   V<dim> r(true);
   calcNoSlipDualFlux<double, dim>(d.d, r.mu, r.Pr, r.q, F);
   for (int k = 0; k < n * dim; ++k) { sym_assert_eq(F[k], 0.0, "no dual flux at rest"); }
   sym_reach("done");
}
template <int dim> static void sutherland()
{
   V<dim> s;
   double a2 = G * s.T, m = calcSutherlandViscosity<double, dim>(s.q), S = 198.6 / 460.0;
   sym_assert(m > 0.0, "viscosity is positive");
   // (a2)^(3/2) (1 + S) / (a2 + S), squared
   sym_assert_near(m * m * (a2 + S) * (a2 + S) / (a2 * a2 * a2), (1 + S) * (1 + S), 1e-12, "Sutherland's law");
   double g[dim + 2];
   for (int d = 0; d < dim; ++d)
   {
      double Z[(dim + 2) * dim] = {};
      applyViscousScaling<double, dim>(d, m, s.Pr, s.q, Z, g);
      for (int k = 0; k < dim + 2; ++k) { sym_assert_eq(g[k], 0.0, "a uniform flow has no viscous flux"); }
   }
   sym_observe("m", m);
   sym_reach("done");
}
// the integrator classes: fluxes and their automatic derivatives
template <int dim>
struct I
{
   static const int n = dim + 2;
   double q[n], D[n * dim], mu, Re, Pr;
   mfem::Vector qv, x, dir;
   mfem::DenseMatrix Dw;
   I(bool sutherland)
   {
      q[0] = sym_real_in("q", 0, 0.1, 8.0);
      for (int i = 1; i <= dim; ++i) { q[i] = sym_real_in("q", i, -3.0, 3.0); }
      q[dim + 1] = sym_real_in("q", dim + 1, 1.0, 60.0);
      sym_assume(pressure<double, dim>(q) > 0.05);
      for (int i = 0; i < n * dim; ++i) { D[i] = sym_real_in("D", i, -4.0, 4.0); }
      mu = sutherland ? -1.0 : sym_real_in("mu", 0, 0.01, 4.0);
      Re = sym_real_in("Re", 0, 1.0, 100.0);
      Pr = sym_real_in("Pr", 0, 0.1, 10.0);
      qv.SetSize(n);
      for (int i = 0; i < n; ++i) { qv(i) = q[i]; }
      x.SetSize(dim);
      dir.SetSize(dim);
      for (int i = 0; i < dim; ++i) { x(i) = sym_real_in("x", i, -1.0, 1.0); dir(i) = sym_real_in("dir", i, -2.0, 2.0); }
      sym_assume(dir * dir > 0.01);
      Dw.SetSize(n, dim);
      for (int i = 0; i < n * dim; ++i) { Dw.GetData()[i] = D[i]; }
   }
   double m() const { return (mu < 0.0 ? calcSutherlandViscosity<double, dim>(q) : mu) / Re; }
};
template <int dim> static void volume()
{
   const int n = dim + 2;
   I<dim> s(sym_choice("viscosity law", 0, 0, 1));
   adept::Stack &st = getDiffStack();
   ESViscousIntegrator<dim> in(st, s.Re, s.Pr, s.mu);
   const int d = sym_choice("direction", 0, 0, dim - 1);
   mfem::Vector C(n), w(n);
   in.applyScaling(d, s.x, s.qv, s.Dw, C);
   double f[n];
   applyViscousScaling<double, dim>(d, s.m(), s.Pr, s.q, s.D, f);
   eqs<n>(C.GetData(), f, "the integrator scales with the viscosity over the Reynolds number");
   mfem::DenseMatrix Jq(n);
   std::vector<mfem::DenseMatrix> Jd(dim);
   for (auto &m : Jd) { m.SetSize(n); }
   in.applyScalingJacState(d, s.x, s.qv, s.Dw, Jq);
   in.applyScalingJacDw(d, s.x, s.qv, s.Dw, Jd);
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < n; ++j)
      {
         sym_assert_eq(Jq(i, j), sym_diff(C(i), s.q[j]), "derivative of the viscous flux with respect to the state");
         for (int e = 0; e < dim; ++e) { sym_assert_eq(Jd[e](i, j), sym_diff(C(i), s.D[e * n + j]), "derivative of the viscous flux with respect to the gradient"); }
      }
   }
   in.convertVars(s.qv, w);
   calcEntropyVars<double, dim, false>(s.q, f);
   eqs<n>(w.GetData(), f, "the integrator works with entropy variables");
   sym_reach("done");
}
template <class BC, int dim>
static void bndry(BC &bc, I<dim> &s, const mfem::Vector &f, double jac)
{
   const int n = dim + 2;
   mfem::DenseMatrix Jq(n);
   std::vector<mfem::DenseMatrix> Jd(dim);
   for (auto &m : Jd) { m.SetSize(n); }
   mfem::Vector g(n);
   bc.calcFluxJacState(s.x, s.dir, jac, s.qv, s.Dw, Jq);
   bc.calcFluxJacDw(s.x, s.dir, jac, s.qv, s.Dw, Jd);
   bc.calcFlux(s.x, s.dir, jac, s.qv, s.Dw, g);
   eqs<n>(g.GetData(), f.GetData(), "boundary flux");
   double e = bc.calcBndryFun(s.x, s.dir, jac, s.qv, s.Dw), w[n];
   calcEntropyVars<double, dim, false>(s.q, w);
   sym_assert_eq(e, dt<n>(w, g.GetData()), "entropy through the boundary");
   for (int i = 0; i < n; ++i)
   {
      for (int j = 0; j < n; ++j)
      {
         sym_assert_eq(Jq(i, j), sym_diff(g(i), s.q[j]), "derivative of the boundary flux with respect to the state");
         for (int d = 0; d < dim; ++d) { sym_assert_eq(Jd[d](i, j), sym_diff(g(i), s.D[d * n + j]), "derivative of the boundary flux with respect to the gradient"); }
      }
   }
}
template <int dim> static mfem::Vector refState(const char *nm)
{
   mfem::Vector r(dim + 2);
   r(0) = sym_real_in(nm, 0, 0.5, 2.0);
   for (int i = 1; i <= dim; ++i) { r(i) = sym_real_in(nm, i, -0.5, 0.5); }
   r(dim + 1) = sym_real_in(nm, dim + 1, 2.0, 4.0);
   return r;
}
template <int dim> static void noslip()
{
   const int n = dim + 2;
   I<dim> s(sym_choice("viscosity law", 0, 0, 1));
   mfem::Vector qf = refState<dim>("qfs"), f(n), a(n), b(n);
   double jac = sym_real_in("jac", 0, 0.1, 4.0);
   NoSlipAdiabaticWallBC<dim> bc(getDiffStack(), nullptr, s.Re, s.Pr, qf, s.mu);
   calcSlipWallFlux<double, dim>(s.x.GetData(), s.dir.GetData(), s.q, f.GetData());
   calcAdiabaticWallFlux<double, dim>(s.dir.GetData(), s.m(), s.Pr, s.q, s.D, a.GetData());
   calcNoSlipPenaltyFlux<double, dim>(s.dir.GetData(), jac, s.m(), s.Pr, qf.GetData(), s.q, b.GetData());
   f -= a;
   f += b;
   bndry<NoSlipAdiabaticWallBC<dim>, dim>(bc, s, f, jac);
   mfem::DenseMatrix Z(n, dim);
   bc.calcFluxDv(s.x, s.dir, s.qv, Z);
   for (int i = 0; i < n * dim; ++i) { sym_assert_eq(Z.GetData()[i], 0.0, "no dual term"); }
   sym_reach("done");
}
template <int dim> static void slip()
{
   const int n = dim + 2;
   I<dim> s(sym_choice("viscosity law", 0, 0, 1));
   mfem::Vector f(n);
   ViscousSlipWallBC<dim> bc(getDiffStack(), nullptr, s.Re, s.Pr, s.mu);
   calcSlipWallFlux<double, dim>(s.x.GetData(), s.dir.GetData(), s.q, f.GetData());
   double n2 = s.dir * s.dir;
   double Z[n * dim];
   for (int k = 0; k < n; ++k)
   {
      double dn = 0.0;
      for (int j = 0; j < dim; ++j) { dn += s.D[j * n + k] * s.dir(j); }
      for (int j = 0; j < dim; ++j) { Z[j * n + k] = s.D[j * n + k] - s.dir(j) * dn / n2; }
   }
   for (int d = 0; d < dim; ++d)
   {
      double g[n];
      applyViscousScaling<double, dim>(d, s.m(), s.Pr, s.q, Z, g);
      for (int k = 0; k < n; ++k) { f(k) -= s.dir(d) * g[k]; }
   }
   bndry<ViscousSlipWallBC<dim>, dim>(bc, s, f, 1.0);
   sym_reach("done");
}
template <int dim> static void open()
{
   const int n = dim + 2;
   I<dim> s(false);
   mfem::Vector qb = refState<dim>("qb"), f(n), work(n);
   calcBoundaryFlux<double, dim>(s.dir.GetData(), qb.GetData(), s.q, work.GetData(), f.GetData());
   const int kind = sym_choice("kind", 0, 0, 2);
   if (kind == 0) { ViscousInflowBC<dim> bc(getDiffStack(), nullptr, s.Re, s.Pr, qb, s.mu); bndry<ViscousInflowBC<dim>, dim>(bc, s, f, 1.0); }
   else if (kind == 1) { ViscousOutflowBC<dim> bc(getDiffStack(), nullptr, s.Re, s.Pr, qb, s.mu); bndry<ViscousOutflowBC<dim>, dim>(bc, s, f, 1.0); }
   else { ViscousFarFieldBC<dim> bc(getDiffStack(), nullptr, s.Re, s.Pr, qb, s.mu); bndry<ViscousFarFieldBC<dim>, dim>(bc, s, f, 1.0); }
   sym_reach("done");
}
#define ALL(n) extern "C" void h_##n##_1() { n<1>(); } extern "C" void h_##n##_2() { n<2>(); } extern "C" void h_##n##_3() { n<3>(); }
ALL(flux) ALL(cij) ALL(wall) ALL(penalty) ALL(dual) ALL(sutherland) ALL(volume) ALL(noslip) ALL(slip) ALL(open)
