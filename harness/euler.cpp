#include <cmath>
#include "mfem.hpp"
#include "euler_fluxes.hpp"
#include "sym.h"
using namespace miso;
static const double G = 1.4, G1 = 0.4;
// a physical state from density, velocity and pressure
template <int dim>
struct S
{
   double rho, p, u[dim], q[dim + 2], k = 0.0;
   S() { }
   explicit S(int n)
   {
      rho = sym_real_in("rho", n, 0.1, 8.0);
      p = sym_real_in("p", n, 0.1, 8.0);
      for (int i = 0; i < dim; ++i) { u[i] = sym_real_in("u", 10 * n + i, -3.0, 3.0); }
      set();
   }
   void set()
   {
      k = 0.0;
      for (int i = 0; i < dim; ++i) { k += u[i] * u[i]; q[i + 1] = rho * u[i]; }
      q[0] = rho;
      q[dim + 1] = p / G1 + 0.5 * rho * k;
   }
};
// a state whose conservative variables are the inputs
template <int dim>
struct C
{
   double q[dim + 2];
   explicit C(int n)
   {
      q[0] = sym_real_in("q", 10 * n, 0.1, 8.0);
      for (int i = 0; i < dim; ++i) { q[i + 1] = sym_real_in("q", 10 * n + i + 1, -3.0, 3.0); }
      q[dim + 1] = sym_real_in("q", 10 * n + dim + 1, 1.0, 60.0);
      sym_assume(pressure<double, dim>(q) > 0.05);
   }
};
template <int dim>
struct Dir
{
   double d[dim], n2 = 0.0;
   Dir() { for (int i = 0; i < dim; ++i) { d[i] = sym_real_in("dir", i, -2.0, 2.0); n2 += d[i] * d[i]; } sym_assume(n2 > 0.01); }
};
template <int dim> static double un(const S<dim> &s, const double *d) { double r = 0.0; for (int i = 0; i < dim; ++i) { r += s.u[i] * d[i]; } return r; }
template <int n> static void eqs(const double *a, const double *b, const char *l) { for (int i = 0; i < n; ++i) { sym_assert_eq(a[i], b[i], l); } }
template <int n> static double dt(const double *a, const double *b) { double r = 0.0; for (int i = 0; i < n; ++i) { r += a[i] * b[i]; } return r; }
// v^T A0 v written as a sum of squares
template <int dim> static double sos(const S<dim> &s, const double *v)
{
   double a = v[0] + (s.q[dim + 1] / s.rho) * v[dim + 1], b = 0.0;
   for (int i = 0; i < dim; ++i) { a += s.u[i] * v[i + 1]; double t = v[i + 1] + s.u[i] * v[dim + 1]; b += t * t; }
   return s.rho * a * a + s.p * b + s.p * s.p / (s.rho * G1) * v[dim + 1] * v[dim + 1];
}
template <int dim> static void state()
{
   S<dim> s(0);
   Dir<dim> d;
   sym_assert_eq(pressure<double, dim>(s.q), s.p, "pressure");
   double f[dim + 2], w[dim + 2], q2[dim + 2];
   calcEulerFlux<double, dim>(d.d, s.q, f);
   double U = un(s, d.d);
   sym_assert_eq(f[0], s.rho * U, "mass flux");
   for (int i = 0; i < dim; ++i) { sym_assert_eq(f[i + 1], s.rho * s.u[i] * U + s.p * d.d[i], "momentum flux"); }
   sym_assert_eq(f[dim + 1], (s.q[dim + 1] + s.p) * U, "energy flux");
   calcEntropyVars<double, dim, false>(s.q, w);
   calcConservativeVars<double, dim, true>(w, q2);
   eqs<dim + 2>(q2, s.q, "entropy variables are converted back");
   double w2[dim + 2];
   calcEntropyVars<double, dim, true>(w, w2);
   eqs<dim + 2>(w2, w, "entropy variables stay");
   calcConservativeVars<double, dim, false>(s.q, q2);
   eqs<dim + 2>(q2, s.q, "conservative variables stay");
   double e = entropy<double, dim, false>(s.q);
   sym_assert_eq(e, -s.rho * log(s.p / pow(s.rho, G)) / G1, "entropy");
   sym_assert_eq((entropy<double, dim, true>(w)), e, "entropy from entropy variables");
   double v[dim + 2], z[dim + 2], Av[dim + 2], Az[dim + 2];
   for (int i = 0; i < dim + 2; ++i) { v[i] = sym_real_in("v", i, -2.0, 2.0); z[i] = sym_real_in("z", i, -2.0, 2.0); }
   calcdQdWProduct<double, dim>(s.q, v, Av);
   calcdQdWProduct<double, dim>(s.q, z, Az);
   sym_assert_eq(dt<dim + 2>(z, Av), dt<dim + 2>(v, Az), "dq/dw is symmetric");
   sym_assert_eq(dt<dim + 2>(v, Av), sos(s, v), "dq/dw is a sum of squares");
   double r = calcSpectralRadius<double, dim>(d.d, s.q);
   sym_assert_eq(r, fabs(U) + sqrt(G * s.p / s.rho) * sqrt(d.n2), "spectral radius");
   sym_assert_eq((calcSpectralRadius<double, dim, true>(d.d, w)), r, "spectral radius from entropy variables");
   sym_observe("r", r);
   sym_observe("e", e);
   sym_reach("done");
}
template <int dim> static void derivatives()
{
   C<dim> c(0);
   double dp[dim + 2], w[dim + 2], v[dim + 2], Av[dim + 2];
   double p = pressure<double, dim>(c.q);
   dpressdq<double, dim>(c.q, dp);
   double e = entropy<double, dim, false>(c.q);
   calcEntropyVars<double, dim, false>(c.q, w);
   for (int i = 0; i < dim + 2; ++i) { v[i] = sym_real_in("v", i, -2.0, 2.0); }
   calcdQdWProduct<double, dim>(c.q, v, Av);
   Dir<dim> d;
   double f[dim + 2];
   calcEulerFlux<double, dim>(d.d, c.q, f);
   for (int j = 0; j < dim + 2; ++j)
   {
      sym_assert_eq(dp[j], sym_diff(p, c.q[j]), "derivative of the pressure");
      sym_assert_eq(w[j], sym_diff(e, c.q[j]), "the entropy variables are the gradient of the entropy");
      double t = 0.0, a = 0.0;
      for (int i = 0; i < dim + 2; ++i) { t += sym_diff(w[j], c.q[i]) * Av[i]; a += w[i] * sym_diff(f[i], c.q[j]); }
      sym_assert_eq(t, v[j], "dq/dw inverts the derivative of the entropy variables");
      sym_assert_eq(a, sym_diff(e * dt<dim>(c.q + 1, d.d) / c.q[0], c.q[j]), "smooth solutions conserve entropy");
   }
   sym_reach("done");
}
template <int dim> static void shifted()
{
   // the entropy shifted by an affine function has a stationary point with value zero at the reference
   C<dim> c(0);
   S<dim> s(1);
   double we[dim + 2], w[dim + 2];
   sym_assert_eq((entropy<double, dim>(s.q, s.q)), 0.0, "shifted entropy at the reference");
   calcEntropyVars<double, dim, false>(c.q, w);
   calcEntropyVars<double, dim, false>(s.q, we);
   double e = entropy<double, dim>(c.q, s.q);
   for (int j = 0; j < dim + 2; ++j) { sym_assert_eq(sym_diff(e, c.q[j]), w[j] - we[j], "gradient of the shifted entropy"); }
   sym_reach("done");
}
static void noforks_logavg(double a, double b) { sym_assume((a - b) * (a - b) >= 0.02 * (a + b) * (a + b)); }
// all two-point fluxes and boundary fluxes reduce to the Euler flux
template <int dim> static void consistency()
{
   S<dim> s(0);
   Dir<dim> d;
   double f[dim + 2], F[dim + 2], w[dim + 2], work[dim + 2], e[dim];
   calcEulerFlux<double, dim>(d.d, s.q, F);
   calcEntropyVars<double, dim, false>(s.q, w);
   double c = sym_real_in("diss", 0, 0.0, 2.0);
   for (int di = 0; di < dim; ++di)
   {
      for (int i = 0; i < dim; ++i) { e[i] = i == di; }
      double Fe[dim + 2];
      calcEulerFlux<double, dim>(e, s.q, Fe);
      calcIsmailRoeFlux<double, dim>(di, s.q, s.q, f);
      eqs<dim + 2>(f, Fe, "two-point flux is consistent");
      calcIsmailRoeFluxUsingEntVars<double, dim>(di, w, w, f);
      eqs<dim + 2>(f, Fe, "two-point flux of entropy variables is consistent");
   }
   calcIsmailRoeFaceFlux<double, dim>(d.d, s.q, s.q, f);
   eqs<dim + 2>(f, F, "face flux is consistent");
   calcIsmailRoeFaceFluxUsingEntVars<double, dim>(d.d, w, w, f);
   eqs<dim + 2>(f, F, "face flux of entropy variables is consistent");
   calcIsmailRoeFaceFluxWithDiss<double, dim>(d.d, c, s.q, s.q, f);
   eqs<dim + 2>(f, F, "dissipative face flux is consistent");
   calcIsmailRoeFaceFluxWithDissUsingEntVars<double, dim>(d.d, c, w, w, f);
   eqs<dim + 2>(f, F, "dissipative face flux of entropy variables is consistent");
   sym_observe("f", f[0]);
   sym_reach("done");
}
template <int dim> static void consistency_bnd()
{
   S<dim> s(0);
   Dir<dim> d;
   double f[dim + 2], F[dim + 2], w[dim + 2], work[dim + 2];
   calcEulerFlux<double, dim>(d.d, s.q, F);
   const int which = sym_choice("flux", 0, 0, 4);
   if (which == 0) { calcRoeFaceFlux<double, dim>(d.d, s.q, s.q, f); }
   if (which == 1) { calcBoundaryFlux<double, dim>(d.d, s.q, s.q, work, f); }
   if (which == 2) { calcFarFieldFlux<double, dim, false>(d.d, s.q, s.q, work, f); }
   if (which == 3) { calcFarFieldFlux2<double, dim, false>(d.d, s.q, s.q, work, f); }
   if (which == 4)
   {
      calcEntropyVars<double, dim, false>(s.q, w);
      calcFarFieldFlux<double, dim, true>(d.d, s.q, w, work, f);
   }
   eqs<dim + 2>(f, F, "boundary and Roe fluxes are consistent");
   sym_observe("f", f[0]);
   sym_reach("done");
}
// swapping the sides and reversing the direction negates the flux
template <int dim> static void conservation()
{
   S<dim> l(0), r(1);
   Dir<dim> d;
   double md[dim], f[dim + 2], g[dim + 2], c = sym_real_in("diss", 0, 0.0, 2.0);
   for (int i = 0; i < dim; ++i) { md[i] = -d.d[i]; }
   for (int di = 0; di < dim; ++di)
   {
      calcIsmailRoeFlux<double, dim>(di, l.q, r.q, f);
      calcIsmailRoeFlux<double, dim>(di, r.q, l.q, g);
      eqs<dim + 2>(f, g, "two-point flux is symmetric");
   }
   calcIsmailRoeFaceFlux<double, dim>(d.d, l.q, r.q, f);
   double h[dim + 2], e[dim + 2];
   for (int i = 0; i < dim + 2; ++i) { h[i] = 0.0; }
   for (int di = 0; di < dim; ++di)
   {
      calcIsmailRoeFlux<double, dim>(di, l.q, r.q, e);
      for (int i = 0; i < dim + 2; ++i) { h[i] += d.d[di] * e[i]; }
   }
   eqs<dim + 2>(f, h, "face flux is the combination of the directional ones");
   calcIsmailRoeFaceFlux<double, dim>(md, r.q, l.q, g);
   for (int i = 0; i < dim + 2; ++i) { sym_assert_eq(f[i], -g[i], "face flux conserves"); }
   sym_observe("f", f[0]);
   sym_reach("done");
}
template <int dim> static void dissipation()
{
   S<dim> l(0), r(1), m;
   Dir<dim> d;
   double md[dim], f[dim + 2], g[dim + 2], h[dim + 2], wl[dim + 2], wr[dim + 2], c = sym_real_in("diss", 0, 0.0, 2.0);
   noforks_logavg(sqrt(l.rho / l.p), sqrt(r.rho / r.p));
   noforks_logavg(sqrt(l.rho * l.p), sqrt(r.rho * r.p));
   for (int i = 0; i < dim; ++i) { md[i] = -d.d[i]; }
   calcIsmailRoeFaceFluxWithDiss<double, dim>(d.d, c, l.q, r.q, f);
   calcIsmailRoeFaceFlux<double, dim>(d.d, l.q, r.q, h);
   calcEntropyVars<double, dim, false>(l.q, wl);
   calcEntropyVars<double, dim, false>(r.q, wr);
   for (int i = 0; i < dim + 2; ++i) { m.q[i] = 0.5 * (l.q[i] + r.q[i]); wl[i] -= wr[i]; f[i] -= h[i]; }
   m.rho = m.q[0];
   for (int i = 0; i < dim; ++i) { m.u[i] = m.q[i + 1] / m.rho; }
   m.p = pressure<double, dim>(m.q);
   double lam = fabs(un(m, d.d)) + sqrt(G * m.p / m.rho) * sqrt(d.n2);
   calcIsmailRoeFaceFluxWithDiss<double, dim>(md, c, r.q, l.q, g);
   calcIsmailRoeFaceFlux<double, dim>(md, r.q, l.q, h);
   for (int i = 0; i < dim + 2; ++i) { sym_assert_eq(f[i] + (g[i] - h[i]), 0.0, "the dissipation is conservative"); }
   sym_assert_eq(dt<dim + 2>(wl, f), c * lam * sos(m, wl), "the dissipation of entropy is a non-negative sum of squares");
   sym_reach("done");
}
// Tadmor's condition, on the branch where the logarithmic mean is not expanded
template <int dim> static void tadmor()
{
   S<dim> l(0), r(1);
   double f[dim + 2], wl[dim + 2], wr[dim + 2];
   noforks_logavg(sqrt(l.rho / l.p), sqrt(r.rho / r.p));
   noforks_logavg(sqrt(l.rho * l.p), sqrt(r.rho * r.p));
   calcEntropyVars<double, dim, false>(l.q, wl);
   calcEntropyVars<double, dim, false>(r.q, wr);
   for (int i = 0; i < dim + 2; ++i) { wl[i] -= wr[i]; }
   const int di = sym_choice("direction", 0, 0, dim - 1);
   calcIsmailRoeFlux<double, dim>(di, l.q, r.q, f);
   sym_assert_eq(dt<dim + 2>(wl, f), l.q[di + 1] - r.q[di + 1], "the two-point flux conserves entropy");
   sym_observe("f", f[0]);
   sym_reach("done");
}
template <int dim> static void entvars()
{
   S<dim> l(0), r(1);
   Dir<dim> d;
   noforks_logavg(sqrt(l.rho / l.p), sqrt(r.rho / r.p));
   noforks_logavg(sqrt(l.rho * l.p), sqrt(r.rho * r.p));
   double f[dim + 2], g[dim + 2], wl[dim + 2], wr[dim + 2], c = sym_real_in("diss", 0, 0.0, 2.0);
   calcEntropyVars<double, dim, false>(l.q, wl);
   calcEntropyVars<double, dim, false>(r.q, wr);
   const int which = sym_choice("flux", 0, 0, dim + 1);
   if (which == 0)
   {
      calcIsmailRoeFaceFlux<double, dim>(d.d, l.q, r.q, f);
      calcIsmailRoeFaceFluxUsingEntVars<double, dim>(d.d, wl, wr, g);
   }
   else if (which == 1)
   {
      calcIsmailRoeFaceFluxWithDiss<double, dim>(d.d, c, l.q, r.q, f);
      calcIsmailRoeFaceFluxWithDissUsingEntVars<double, dim>(d.d, c, wl, wr, g);
   }
   else
   {
      calcIsmailRoeFlux<double, dim>(which - 2, l.q, r.q, f);
      calcIsmailRoeFluxUsingEntVars<double, dim>(which - 2, wl, wr, g);
   }
   eqs<dim + 2>(f, g, "fluxes of entropy variables are those of the conservative variables");
   sym_observe("f", f[0]);
   sym_reach("done");
}
// the logarithmic mean: with aR = 1 and aL = (1+f)/(1-f), (aL - aR) / logavg is
// 2 atanh(f), whose derivative is 2/(1-f^2)
extern "C" void h_logavg()
{
   double f = sym_real_in("f", 0, -0.95, 0.95);
   sym_assume(f != 0.0);
   double aL = (1 + f) / (1 - f), b = sym_real_in("b", 0, 0.1, 8.0);
   double m = logavg<double>(aL, 1.0);
   double g = f * (aL + 1.0) / (2.0 * m);
   sym_assert_near(sym_diff(g, f) * (1 - f * f), 1.0, 1e-13, "logarithmic mean");
   sym_assert_eq(logavg<double>(aL * b, b), b * m, "logarithmic mean is homogeneous");
   sym_assert_eq(logavg<double>(b, aL * b), b * m, "logarithmic mean is symmetric");
   sym_assert_eq(logavg<double>(b, b), b, "logarithmic mean of equal values");
   sym_reach(f * f < 0.001 ? "series" : "log");
}
template <int dim> static void boundary()
{
   S<dim> s(0), b(1);
   Dir<dim> d;
   double f[dim + 2], F[dim + 2], w[dim + 2];
   calcEulerFlux<double, dim>(d.d, s.q, F);
   calcEntropyVars<double, dim, false>(s.q, w);
   // slip wall
   double x[3] = {0, 0, 0};
   calcSlipWallFlux<double, dim, false>(x, d.d, s.q, f);
   sym_assert_eq(f[0], 0.0, "no mass through a slip wall");
   sym_assert_eq(f[dim + 1], 0.0, "no energy through a slip wall");
   for (int i = 0; i < dim; ++i) { sym_assert_eq(f[i + 1], s.p * d.d[i], "a slip wall feels the pressure"); }
   sym_assert_eq(dt<dim + 2>(w, f), dt<dim>(s.q + 1, d.d), "a slip wall conserves entropy");
   calcSlipWallFlux<double, dim, true>(x, d.d, w, F);
   eqs<dim + 2>(F, f, "slip wall of entropy variables");
   // projection onto the wall
   double qb[dim + 2], qq[dim + 2];
   projectStateOntoWall<double, dim>(d.d, s.q, qb);
   sym_assert_eq(qb[0], s.q[0], "projection keeps the density");
   sym_assert_eq(qb[dim + 1], s.q[dim + 1], "projection keeps the energy");
   sym_assert_eq(dt<dim>(qb + 1, d.d), 0.0, "projection removes the normal momentum");
   for (int i = 0; i < dim; ++i)
   {
      for (int j = 0; j < i; ++j) { sym_assert_eq((s.q[i + 1] - qb[i + 1]) * d.d[j], (s.q[j + 1] - qb[j + 1]) * d.d[i], "projection removes only normal momentum"); }
   }
   projectStateOntoWall<double, dim>(d.d, qb, qq);
   eqs<dim + 2>(qq, qb, "projection is idempotent");
   // controlled velocity
   double vc = sym_real_in("control", 0, -2.0, 2.0);
   calcControlFlux<double, dim>(d.d, s.q, vc, f);
   double U = -vc * sqrt(d.n2);
   sym_assert_eq(f[0], s.rho * U, "mass through a controlled boundary");
   for (int i = 0; i < dim; ++i) { sym_assert_eq(f[i + 1], s.q[i + 1] * U + s.p * d.d[i], "momentum through a controlled boundary"); }
   sym_assert_eq(f[dim + 1], (s.q[dim + 1] + s.p) * U, "energy through a controlled boundary");
   sym_assert_eq(dt<dim + 2>(w, f) - dt<dim>(s.q + 1, d.d), entropy<double, dim, false>(s.q) * U, "a controlled boundary lets entropy through at the control velocity");
   // far field
   calcFarFieldFlux2<double, dim, false>(d.d, b.q, s.q, w, f);
   double Ub = un(b, d.d);
   const S<dim> &up = Ub < 0.0 ? b : s;
   sym_assert_eq(f[0], up.rho * Ub, "far field mass is upwind");
   for (int i = 0; i < dim; ++i) { sym_assert_eq(f[i + 1], up.q[i + 1] * Ub + s.p * d.d[i], "far field momentum is upwind"); }
   sym_assert_eq(f[dim + 1], (up.q[dim + 1] + up.p) * Ub, "far field energy is upwind");
   sym_reach(Ub < 0.0 ? "in" : "out");
}
// characteristic boundary flux: exact on every eigenvector of the Jacobian
template <int dim> static void characteristic()
{
   S<dim> b;
   Dir<dim> d;
   double a = sym_real_in("a", 0, 0.2, 3.0), al = sym_real_in("alpha", 0, -0.05, 0.05), dA = sym_real_in("dA", 0, 0.2, 3.0);
   double n[dim];
   // direction with a known length
   double nn = sqrt(d.n2);
   for (int i = 0; i < dim; ++i) { n[i] = d.d[i] / nn; d.d[i] = n[i] * dA; }
   b.rho = sym_real_in("rho", 0, 0.5, 4.0);
   for (int i = 0; i < dim; ++i) { b.u[i] = sym_real_in("u", i, -3.0, 3.0); }
   b.p = b.rho * a * a / G;
   b.set();
   double Un = un(b, n), H = (b.q[dim + 1] + b.p) / b.rho;
   const int which = sym_choice("wave", 0, 0, dim == 1 ? 2 : dim + 2);
   double r[dim + 2], lam = Un;
   r[0] = 1.0;
   if (which == 0 || which == 1)
   {
      double c = which == 0 ? a : -a;
      lam = Un + c;
      for (int i = 0; i < dim; ++i) { r[i + 1] = b.u[i] + c * n[i]; }
      r[dim + 1] = H + c * Un;
   }
   else if (which == 2)
   {
      for (int i = 0; i < dim; ++i) { r[i + 1] = b.u[i]; }
      r[dim + 1] = 0.5 * b.k;
   }
   else
   {
      double t[3] = {0, 0, 0};
      const int e = which - 3;    // tangential: component e of the unit vectors with the normal part removed
      for (int i = 0; i < dim; ++i) { t[i] = (i == e) - n[e] * n[i]; }
      r[0] = 0.0;
      r[dim + 1] = 0.0;
      for (int i = 0; i < dim; ++i) { r[i + 1] = t[i]; r[dim + 1] += b.u[i] * t[i]; }
   }
   double q[dim + 2], F[dim + 2], f[dim + 2], work[dim + 2];
   for (int i = 0; i < dim + 2; ++i) { q[i] = b.q[i] + al * r[i]; }
   calcEulerFlux<double, dim>(d.d, q, F);
   calcBoundaryFlux<double, dim>(d.d, b.q, q, work, f);
   double m = 0.5 * (fabs(lam) - lam) * dA;
   for (int i = 0; i < dim + 2; ++i) { sym_assert_eq(f[i] - F[i], m * al * r[i], "incoming waves are replaced by those of the boundary state, outgoing ones are kept"); }
   sym_reach("done");
}
// boundary flux with a prescribed flux of entropy
template <int dim> static void entropy_constrained()
{
   S<dim> s(0), b;
   Dir<dim> d;
   b.rho = sym_real_in("rho", 1, 0.1, 8.0);
   double a = sym_real_in("a", 1, 0.2, 3.0);
   b.p = b.rho * a * a / G;
   for (int i = 0; i < dim; ++i) { b.u[i] = sym_real_in("u", 10 + i, -3.0, 3.0); }
   b.set();
   double f[dim + 2], w[dim + 2], ef = sym_real_in("entflux", 0, -3.0, 3.0);
   calcEntropyVars<double, dim, false>(s.q, w);
   calcBoundaryFluxEC<double, dim>(d.d, b.q, s.q, ef, f);
   sym_assert_eq(dt<dim + 2>(w, f) - dt<dim>(s.q + 1, d.d), ef, "the flux of entropy is the prescribed one");
   sym_reach("done");
}
// Roe's flux
template <int dim> static void roe()
{
   S<dim> l, r;
   double sl = sym_real_in("sl", 0, 0.4, 2.0), sr = sym_real_in("sr", 0, 0.4, 2.0), pl = sym_real_in("p", 0, 0.2, 4.0), pr = sym_real_in("p", 1, 0.2, 4.0);
   l.rho = sl * sl; r.rho = sr * sr; l.p = pl; r.p = pr;
   for (int i = 0; i < dim; ++i) { l.u[i] = sym_real_in("u", i, -3.0, 3.0); r.u[i] = sym_real_in("u", 10 + i, -3.0, 3.0); }
   l.set(); r.set();
   double d[3] = {0, 0, 0};
   const int ax = sym_choice("axis", 0, 0, dim - 1);
   double dA = sym_real_in("dA", 0, 0.2, 3.0);
   d[ax] = dA;
   double u[dim], phi = 0.0, H, Un;
   for (int i = 0; i < dim; ++i) { u[i] = (sl * l.u[i] + sr * r.u[i]) / (sl + sr); phi += 0.5 * u[i] * u[i]; }
   H = (sl * (l.q[dim + 1] + l.p) / l.rho + sr * (r.q[dim + 1] + r.p) / r.rho) / (sl + sr);
   Un = u[ax];
   double a = sqrt(G1 * (H - phi));
   // away from the entropy fix
   double rad = fabs(Un) + a;
   sym_assume(fabs(Un) > 0.1 * rad);
   sym_assume(fabs(fabs(Un) - a) > 0.1 * rad);
   double FL[dim + 2], FR[dim + 2], f[dim + 2], dq[dim + 2];
   calcEulerFlux<double, dim>(d, l.q, FL);
   calcEulerFlux<double, dim>(d, r.q, FR);
   calcRoeFaceFlux<double, dim>(d, l.q, r.q, f);
   for (int i = 0; i < dim + 2; ++i) { dq[i] = l.q[i] - r.q[i]; }
   // product with the Jacobian at the averaged state, in the unit direction
   auto A = [&](const double *v, double *out) {
      double k = -Un * v[0] + v[ax + 1], dp = phi * v[0] + v[dim + 1];
      for (int i = 0; i < dim; ++i) { dp -= u[i] * v[i + 1]; }
      dp *= G1;
      out[0] = Un * v[0] + k;
      for (int i = 0; i < dim; ++i) { out[i + 1] = Un * v[i + 1] + u[i] * k; }
      out[ax + 1] += dp;
      out[dim + 1] = Un * v[dim + 1] + H * k + Un * dp;
   };
   // |A| dq = |Un| dq + contributions of the acoustic waves
   double B[dim + 2], P[dim + 2], M[dim + 2], t[dim + 2];
   A(dq, B);
   for (int i = 0; i < dim + 2; ++i) { B[i] -= Un * dq[i]; }    // (A - Un) dq
   A(B, t);
   const double l1 = fabs(Un + a), l2 = fabs(Un - a), l3 = fabs(Un);
   for (int i = 0; i < dim + 2; ++i)
   {
      double c = t[i] - Un * B[i];                              // (A - Un)^2 dq
      P[i] = (c + a * B[i]) / (2 * a * a);
      M[i] = (c - a * B[i]) / (2 * a * a);
      double ref = 0.5 * (FL[i] + FR[i]) + 0.5 * dA * (l3 * dq[i] + (l1 - l3) * P[i] + (l2 - l3) * M[i]);
      sym_assert_eq(f[i], ref, "Roe's flux is upwind in every characteristic of the averaged state");
   }
   sym_reach(Un > a ? "right" : Un < -a ? "left" : "subsonic");
}
template <int dim> static void roe_conserves()
{
   S<dim> l(0), r(1);
   Dir<dim> d;
   if (dim == 3)
   {
      const int k = sym_choice("axis", 0, 0, 2);
      for (int i = 0; i < dim; ++i) { if (i != k) { d.d[i] = 0.0; } }
      sym_assume(d.d[k] * d.d[k] > 0.01);
   }
   double md[dim], f[dim + 2], g[dim + 2];
   for (int i = 0; i < dim; ++i) { md[i] = -d.d[i]; }
   calcRoeFaceFlux<double, dim>(d.d, l.q, r.q, f);
   calcRoeFaceFlux<double, dim>(md, r.q, l.q, g);
   for (int i = 0; i < dim + 2; ++i) { sym_assert_eq(f[i], -g[i], "Roe's flux conserves"); }
   sym_reach("done");
}
extern "C" void h_freestream()
{
   double M = sym_real_in("mach", 0, 0.05, 2.0), aoa = sym_real_in("aoa", 0, -1.5, 1.5), q[5];
   getFreeStreamQ<double, 1>(M, aoa, 0, 0, q);
   sym_assert_eq(q[1], M, "free stream in one dimension");
   sym_assert_eq((pressure<double, 1>(q)), 1 / G, "free-stream pressure");
   const int r2 = sym_choice("roll2", 0, 0, 1);
   getFreeStreamQ<double, 2>(M, aoa, r2, 1 - r2, q);
   sym_assert_eq(q[1 + r2], M * cos(aoa), "free stream along the roll axis");
   sym_assert_eq(q[2 - r2], M * sin(aoa), "free stream along the pitch axis");
   sym_assert_eq((pressure<double, 2>(q)), 1 / G, "free-stream pressure");
   sym_assert_eq(q[0], 1.0, "free-stream density");
   const int r = sym_choice("roll", 0, 0, 2), p = (r + sym_choice("pitch", 0, 1, 2)) % 3;
   getFreeStreamQ<double, 3>(M, aoa, r, p, q);
   for (int i = 0; i < 3; ++i) { sym_assert_eq(q[1 + i], i == r ? M * cos(aoa) : i == p ? M * sin(aoa) : 0.0, "free stream in three dimensions"); }
   sym_assert_eq((pressure<double, 3>(q)), 1 / G, "free-stream pressure");
   double d[3] = {1, 0, 0};
   sym_assert_eq((calcSpectralRadius<double, 3>(d, q)), fabs(q[1]) + 1.0, "free-stream speed of sound is one");
   sym_reach("done");
}
// the isentropic vortex, with the radius given by t^2 = 1 + 0.05 (1 - 1/r^2) and
// the angle by m = tan(theta/2)
extern "C" void h_vortex()
{
   double t = sym_real_in("t", 0, 1.0, 1.02), m = sym_real_in("m", 0, 0.0, 0.9), q[4];
   double r = sqrt(0.05 / (1.05 - t * t));
   double x[2] = {r * (1 - m * m) / (1 + m * m), r * 2 * m / (1 + m * m)};
   calcIsentropicVortexState<double>(x, q);
   double p = pressure<double, 2>(q), u2 = (q[1] * q[1] + q[2] * q[2]) / (q[0] * q[0]);
   sym_assert_eq(q[1] * x[0] + q[2] * x[1], 0.0, "the vortex flows along circles");
   sym_assert_eq(sym_diff(q[0], m), 0.0, "the vortex has the same density all around");
   sym_assert_eq(sym_diff(q[3], m), 0.0, "the vortex has the same energy all around");
   sym_assert_eq(sym_diff(u2, m), 0.0, "the vortex has the same speed all around");
   sym_assert_eq(sym_diff(p, t) * r, q[0] * u2 * sym_diff(r, t), "the pressure gradient keeps the vortex on its circles");
   sym_assert_eq(p * p * p * p * p * 5.37824 * 128.0, q[0] * q[0] * q[0] * q[0] * q[0] * q[0] * q[0], "the vortex is isentropic");
   sym_assert_eq(1.4 * p * (1 + 0.2 * q[0] * u2 / (1.4 * p)) / q[0], 1.05 * pow(2.0, -1.0), "the vortex has the same total enthalpy everywhere");
   sym_reach("done");
}
extern "C" void h_vortex_flux()
{
   double x[2] = {sym_real_in("x", 0, 0.1, 3.0), sym_real_in("x", 1, 0.1, 3.0)}, qb[4], f[4], g[4], work[4];
   sym_assume(x[0] * x[0] + x[1] * x[1] > 1.0);
   S<2> s(0);
   Dir<2> d;
   calcIsentropicVortexState<double>(x, qb);
   calcBoundaryFlux<double, 2>(d.d, qb, s.q, work, f);
   calcIsentropicVortexFlux<double, false>(x, d.d, s.q, g);
   eqs<4>(g, f, "vortex boundary flux");
   sym_reach("done");
}
// automatic derivatives
template <int dim> static void jacobians()
{
   adept::Stack &st = getDiffStack();
   C<dim> c(0);
   mfem::Vector q(c.q, dim + 2);
   mfem::DenseMatrix J(dim + 2);
   convertVarsJac<dim>(q, st, J);
   double w[dim + 2];
   calcEntropyVars<double, dim, false>(c.q, w);
   for (int i = 0; i < dim + 2; ++i) { for (int j = 0; j < dim + 2; ++j) { sym_assert_eq(J(i, j), sym_diff(w[i], c.q[j]), "Jacobian of the entropy variables"); } }
   sym_reach("done");
}
template <int dim> static void scaling()
{
   S<dim> s(0);
   double A[dim * dim], v[dim + 2], f[dim + 2], g[dim + 2], w[dim + 2], sum = 0.0;
   for (int i = 0; i < dim * dim; ++i) { A[i] = sym_real_in("adj", i, -2.0, 2.0); }
   for (int i = 0; i < dim + 2; ++i) { v[i] = sym_real_in("v", i, -2.0, 2.0); }
   for (int i = 0; i < dim; ++i)
   {
      double n2 = dt<dim>(A + i * dim, A + i * dim);
      sym_assume(n2 > 0.01);
      sum += fabs(un(s, A + i * dim)) + sqrt(G * s.p / s.rho) * sqrt(n2);
   }
   applyLPSScaling<double, dim>(A, s.q, v, f);
   sym_assert_eq(dt<dim + 2>(v, f), sum / dim * sos(s, v), "the scaling is the average spectral radius times dq/dw");
   calcEntropyVars<double, dim, false>(s.q, w);
   applyLPSScalingUsingEntVars<double, dim>(A, w, v, g);
   eqs<dim + 2>(g, f, "scaling from entropy variables");
   sym_reach("done");
}
#define ALL(n) extern "C" void h_##n##_1() { n<1>(); } extern "C" void h_##n##_2() { n<2>(); } extern "C" void h_##n##_3() { n<3>(); }
ALL(state) ALL(derivatives) ALL(shifted) ALL(consistency) ALL(consistency_bnd) ALL(conservation) ALL(dissipation) ALL(tadmor) ALL(entvars) ALL(boundary)
ALL(characteristic) ALL(entropy_constrained) ALL(roe) ALL(roe_conserves) ALL(jacobians) ALL(scaling)
