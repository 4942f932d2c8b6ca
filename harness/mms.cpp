// Manufactured solutions: the source is what the flow equations leave of the
// exact solution, div(inviscid flux) - div(viscous flux), with the derivatives
// taken by sym_diff from the solution itself.
#include <cmath>
#include "adept.h"
#include "mfem.hpp"
#include "euler_fluxes.hpp"
#include "navier_stokes_fluxes.hpp"
#include "sym.h"
using namespace miso;
template <int dim, class Q, class S> static void check(bool viscous, int uses, Q exact, S source)
{
   const double G = 1.4, G1 = 0.4;
   const int n = dim + 2;
   double x[dim], q[n], src[n], mu = 0.0, Pr = 1.0, kappa = 0.0;
   for (int i = 0; i < dim; ++i) { x[i] = sym_real_in("x", i, 0.0, 1.0); }
   if (viscous)
   {
      mu = sym_real_in("mu", 0, 0.001, 4.0);
      Pr = sym_real_in("Pr", 0, 0.1, 10.0);
      kappa = mu * G / (Pr * G1);
   }
   exact(x, q);
   source(mu, Pr, x, src);
   double u[dim], k = 0.0, T, r[n];
   for (int i = 0; i < dim; ++i) { u[i] = q[i + 1] / q[0]; k += u[i] * u[i]; }
   T = G1 * (q[n - 1] / q[0] - 0.5 * k);
   sym_assert(q[0] > 0.0, "exact density is positive");
   for (int i = 0; i < n; ++i) { r[i] = 0.0; }
   double du[dim][dim], dT[dim];
   for (int d = 0; d < dim; ++d)
   {
      const bool on = d < uses;
      dT[d] = on ? sym_diff(T, x[d]) : 0.0;
      for (int i = 0; i < dim; ++i) { du[i][d] = on ? sym_diff(u[i], x[d]) : 0.0; }
   }
   double div = 0.0;
   for (int d = 0; d < dim; ++d) { div += du[d][d]; }
   for (int d = 0; d < uses; ++d)
   {
      double dir[dim], f[n];
      for (int i = 0; i < dim; ++i) { dir[i] = i == d ? 1.0 : 0.0; }
      calcEulerFlux<double, dim>(dir, q, f);
      if (viscous)
      {
         double w = kappa * dT[d];
         for (int i = 0; i < dim; ++i)
         {
            const double t = mu * (du[i][d] + du[d][i] - (i == d ? 2.0 * div / 3.0 : 0.0));
            f[i + 1] -= t;
            w += u[i] * t;
         }
         f[n - 1] -= w;
      }
      for (int i = 0; i < n; ++i) { r[i] += sym_diff(f[i], x[d]); }
   }
   for (int i = 0; i < n; ++i) { sym_assert_near(src[i], r[i], 1e-9, "source of the manufactured solution"); }
   sym_reach("done");
}
extern "C" void h_mms_inviscid()
{
   check<3>(false, 2, [](const double *x, double *q) { InviscidMMSExact<double>(3, x, q); },
            [](double, double, const double *x, double *s) { calcInviscidMMS<double>(3, x, s); });
}
extern "C" void h_mms_viscous2()
{
   check<2>(true, 2, [](const double *x, double *q) { viscousMMSExact<double>(2, x, q); },
            [](double mu, double Pr, const double *x, double *s) { calcViscousMMS<double>(2, mu, Pr, x, s); });
}
extern "C" void h_mms_viscous3()
{
   check<3>(true, 3, [](const double *x, double *q) { viscousMMSExact<double>(3, x, q); },
            [](double mu, double Pr, const double *x, double *s) { calcViscousMMS<double>(3, mu, Pr, x, s); });
}
