#include <cmath>
#include <limits>
#include <vector>
#include "mfem.hpp"
#include "linesearch.hpp"
#include "sym.h"
using namespace miso;
#ifdef VERIF_THOROUGH
static const int MAXIT = 3;
#else
static const int MAXIT = 2;
#endif

namespace
{
struct Setup
{
   BacktrackingLineSearch ls;
   double phi0, dphi0, alpha0;
};
void setup(Setup &s, int lo, int hi)
{
   s.phi0 = sym_real_in("phi0", 0, 0.0, 100.0);
   s.dphi0 = -sym_real_in("slope", 0, 0.001, 100.0);
   s.alpha0 = sym_real_in("alpha0", 0, 0.01, 4.0);
   s.ls.mu = sym_real_in("mu", 0, 1e-6, 0.75);
   s.ls.rho_lo = sym_real_in("rho_lo", 0, 0.01, 0.45);
   s.ls.rho_hi = sym_real_in("rho_hi", 0, 0.55, 0.99);
   s.ls.interp_order = sym_choice("order", 0, 2, 3);
   s.ls.max_iter = sym_choice("max_iter", 0, lo, hi);
}
}  // namespace

// arbitrary history of function values
extern "C" void h_ls_history()
{
   Setup s;
   setup(s, 0, MAXIT);
   double a[16], f[16];
   int n = 0;
   auto phi = [&](double alpha) {
      a[n] = alpha;
      f[n] = sym_real_in("phi", n, -50.0, 200.0);
      ++n;
      return f[n - 1];
   };
   double step = s.ls.search(phi, s.phi0, s.dphi0, s.alpha0);
   sym_observe("step", step);
   sym_assert(n >= 1, "phi is evaluated");
   sym_assert(n <= s.ls.max_iter + 1, "at most max_iter backtracks");
   sym_assert_eq(a[0], s.alpha0, "full step is tried first");
   for (int i = 1; i < n; ++i)
   {
      sym_assert(a[i] <= s.ls.rho_hi * a[i - 1], "each backtrack shrinks by at least rho_hi");
      sym_assert(a[i] >= s.ls.rho_lo * a[i - 1], "no backtrack shrinks by more than rho_lo");
   }
   // only a value violating sufficient decrease may lead to another trial
   for (int i = 0; i + 1 < n; ++i)
   {
      sym_assert(f[i] > s.phi0 + s.ls.mu * a[i] * s.dphi0, "an acceptable step is taken at once");
   }
   if (f[n - 1] <= s.phi0 + s.ls.mu * a[n - 1] * s.dphi0)
   {
      sym_assert(step == a[n - 1], "the accepted step is the last one evaluated");
      sym_reach("accepted");
   }
   else
   {
      sym_assert(step == 0.0, "failure returns a zero step");
      sym_assert(n == s.ls.max_iter + 1, "all backtracks used before failing");
      sym_reach("failed");
   }
}

// NaN / infinite values of phi are never accepted
extern "C" void h_ls_nonfinite()
{
   Setup s;
   setup(s, 0, 2);
   s.ls.interp_order = 3;
   double a[16], f[16];
   int n = 0;
   auto phi = [&](double alpha) {
      int kind = sym_choice("kind", n, 0, 2);
      a[n] = alpha;
      f[n] = kind == 0 ? sym_real_in("phi", n, -50.0, 200.0)
             : kind == 1 ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
      ++n;
      return f[n - 1];
   };
   double step = s.ls.search(phi, s.phi0, s.dphi0, s.alpha0);
   sym_assert(step == step, "the step is a number");
   sym_assert(n <= s.ls.max_iter + 1, "at most max_iter backtracks");
   for (int i = 1; i < n; ++i)
   {
      sym_assert(a[i] <= s.ls.rho_hi * a[i - 1] && a[i] >= s.ls.rho_lo * a[i - 1], "trial steps stay bracketed");
   }
   if (step != 0.0)
   {
      sym_assert(step == a[n - 1], "the accepted step is the last one evaluated");
      sym_assert(f[n - 1] <= s.phi0 + s.ls.mu * step * s.dphi0, "an accepted step satisfies sufficient decrease");
      sym_reach("accepted");
   }
   else { sym_reach("failed"); }
}

// phi is a polynomial of degree 2 or 3: the interpolants are exact, so every
// trial is the clamped minimiser of phi itself
static void interp(bool cubic)
{
   Setup s;
   setup(s, 2, 2);
   double c2 = sym_real_in("c2", 0, -20.0, 50.0), c3 = 0.0;
   if (cubic)
   {
      c3 = sym_real_in("c3", 0, -20.0, 20.0);
      sym_assume(c3 > 1e-3 || c3 < -1e-3);
   }
   double a[16];
   int n = 0;
   auto phi = [&](double alpha) {
      a[n++] = alpha;
      return s.phi0 + s.dphi0 * alpha + c2 * alpha * alpha + c3 * alpha * alpha * alpha;
   };
   double step = s.ls.search(phi, s.phi0, s.dphi0, s.alpha0);
   sym_observe("step", step);
   for (int i = 1; i < n; ++i)
   {
      double lo = s.ls.rho_lo * a[i - 1], hi = s.ls.rho_hi * a[i - 1];
      if (!cubic || (i > 1 && s.ls.interp_order == 3))
      {
         // interior trials are stationary points with upward curvature
         if (a[i] > lo && a[i] < hi)
         {
            double d = c2 * c2 - 3.0 * c3 * s.dphi0;
            if (d >= 0.0)
            {
               sym_assert_eq(s.dphi0 + 2.0 * c2 * a[i] + 3.0 * c3 * a[i] * a[i], 0.0, "interior trial is stationary");
            }
            sym_assert(2.0 * c2 + 6.0 * c3 * a[i] >= -1e-9, "interior trial is a minimum");
            sym_reach(i > 1 ? "second interior" : "first interior");
         }
         else if (!cubic)
         {
            // clamped: the minimiser lies beyond the clamp
            if (a[i] == lo) { sym_assert(s.dphi0 + 2.0 * c2 * lo >= -1e-9, "lower clamp only when the minimum lies below it"); sym_reach(i > 1 ? "second low" : "first low"); }
            else { sym_assert(s.dphi0 + 2.0 * c2 * hi <= 1e-9, "upper clamp only when the minimum lies above it"); }
         }
      }
      else if (i == 1 || s.ls.interp_order == 2)
      {
         // parabola through phi0, dphi0 and the last value
         double b = c2 + c3 * a[i - 1];
         if (a[i] > lo && a[i] < hi) { sym_assert_eq(s.dphi0 + 2.0 * b * a[i], 0.0, "interior trial minimises the parabola"); }
         else if (a[i] == lo) { sym_assert(s.dphi0 + 2.0 * b * lo >= -1e-9, "lower clamp only when the parabola's minimum lies below it"); }
         else { sym_assert(s.dphi0 + 2.0 * b * hi <= 1e-9, "upper clamp only when the parabola's minimum lies above it"); }
      }
   }
}
extern "C" void h_ls_quadratic() { interp(false); }
extern "C" void h_ls_cubic() { interp(true); }

// the functor: phi(alpha) = ||R(x - alpha d)||, slope -(J d . r)/||r||
namespace
{
class SymJac : public mfem::Operator
{
public:
   double j[3][3];
   int n;
   mutable int calls = 0;
   SymJac(int n) : mfem::Operator(n), n(n)
   {
      for (int i = 0; i < n; ++i) { for (int k = 0; k < n; ++k) { j[i][k] = sym_real("jac", 3 * i + k); } }
   }
   void Mult(const mfem::Vector &x, mfem::Vector &y) const override
   {
      ++calls;
      for (int i = 0; i < n; ++i)
      {
         y(i) = 0.0;
         for (int k = 0; k < n; ++k) { y(i) += j[i][k] * x(k); }
      }
   }
};
}  // namespace
extern "C" void h_ls_phi()
{
   int n = sym_choice("n", 0, 1, 3);
   mfem::Vector x(n), d(n), r(n);
   double x0[3], d0[3], r0[3];
   for (int i = 0; i < n; ++i)
   {
      x0[i] = x(i) = sym_real("x", i);
      d0[i] = d(i) = sym_real("d", i);
      r0[i] = r(i) = sym_real_in("r", i, 0.1, 3.0);
   }
   SymJac jac(n);
   int calls = 0;
   double seen[3];
   auto res = [&](const mfem::Vector &xx, mfem::Vector &rr) {
      ++calls;
      double a[3] = {0, 0, 0};
      for (int i = 0; i < n; ++i) { seen[i] = a[i] = xx(i); }
      const char *nm[3] = {"R0", "R1", "R2"};
      for (int i = 0; i < n; ++i) { rr(i) = sym_uf(nm[i], n, a); }
   };
   Phi phi(res, x, d, r, jac);
   double nr = 0, jdr = 0;
   for (int i = 0; i < n; ++i)
   {
      nr += r0[i] * r0[i];
      double s = 0;
      for (int k = 0; k < n; ++k) { s += jac.j[i][k] * d0[k]; }
      jdr += s * r0[i];
   }
   sym_assert_eq(phi.phi0, sqrt(nr), "phi0 is the norm of the initial residual");
   sym_assert_eq(phi.dphi0, -jdr / sqrt(nr), "dphi0 is the directional derivative of the residual norm");
   sym_assert(calls == 0, "construction does not evaluate the residual");
   for (int t = 0; t < 2; ++t)
   {
      double alpha = sym_real("alpha", t);
      double v = phi(alpha);
      double a[3] = {0, 0, 0}, m = 0;
      const char *nm[3] = {"R0", "R1", "R2"};
      for (int i = 0; i < n; ++i) { a[i] = x0[i] - alpha * d0[i]; sym_assert_eq(seen[i], a[i], "the residual is evaluated at x - alpha d"); }
      for (int i = 0; i < n; ++i) { double z = sym_uf(nm[i], n, a); m += z * z; sym_assert_eq(r(i), z, "the residual vector holds the trial residual"); }
      sym_assert_eq(v * v, m, "phi is the norm of the trial residual");
      sym_observe("phi", v);
      for (int i = 0; i < n; ++i) { sym_assert_eq(x(i), x0[i], "state is untouched"); sym_assert_eq(d(i), d0[i], "direction is untouched"); }
   }
   sym_assert_eq(phi.phi0, sqrt(nr), "phi0 does not change");
}
