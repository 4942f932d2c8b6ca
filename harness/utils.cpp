#include <any>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include "mfem.hpp"
#include "utils.hpp"
#include "sym.h"
using namespace miso;
using mfem::DenseMatrix;
using mfem::Vector;
#ifdef VERIF_THOROUGH
static const int MAXIT = 5, EXTRA = 1;
#else
static const int MAXIT = 3, EXTRA = 0;
#endif
namespace
{
struct Log
{
   double x[32], f[32];
   int n = 0, nan_at = -1;
   double fresh(double at)
   {
      x[n] = at;
      f[n] = n == nan_at || at != at ? std::numeric_limits<double>::quiet_NaN() : sym_real_in("f", n, -9.0, 9.0);
      ++n;
      return f[n - 1];
   }
   // value at the last evaluation at a, which has to exist
   int find(double a) const
   {
      for (int i = n - 1; i >= 0; --i) { if (x[i] == a) { return i; } }
      return -1;
   }
};
}  // namespace
// -------------------------------------------------------------- root searches
static void bisect(int nan_at)
{
   Log l;
   l.nan_at = nan_at;
   double xl = sym_real_in("xl", 0, -4.0, 4.0), w = sym_real_in("w", 0, 0.125, 4.0), ftol = sym_real_in("ftol", 0, 0.001, 1.0), xtol = sym_real_in("xtol", 0, 0.001, 1.0);
   int maxit = sym_choice("maxiter", 0, 0, MAXIT);
   bool failed = false;
   double x = 0.0;
   try { x = bisection([&](double a) { return l.fresh(a); }, xl, xl + w, ftol, xtol, maxit); }
   catch (int) { failed = true; }
   sym_assert(l.n <= maxit + 3, "no more evaluations than the iterations allow");
   if (failed)
   {
      sym_reach("failed");
      // a reason: no bracket, a point that is not a number, or out of iterations away from both tolerances
      bool nobracket = l.f[0] * l.f[1] > 0.0, nan = nan_at >= 0 && l.n > nan_at;
      sym_assert(nan || nobracket || l.n == maxit + 3, "failure is reported only without a bracket or out of iterations");
      if (!nan && !nobracket)
      {
         double fm = l.f[l.n - 1];
         sym_assert(fm > ftol || -fm > ftol, "failure is not reported at a root");
      }
      return;
   }
   sym_reach("found");
   sym_observe("x", x);
   int k = l.find(x);
   sym_assert(k >= 0, "the function was evaluated at the point returned");
   sym_assert(x >= xl && x <= xl + w, "the point returned lies in the bracket");
   if (k < 0) { return; }
   if (l.f[k] <= ftol && l.f[k] >= -ftol) { sym_reach("ftol"); return; }
   // otherwise some evaluated pair around x encloses a sign change within xtol
   bool ok = false;
   for (int i = 0; i < l.n; ++i)
   {
      for (int j = 0; j < l.n; ++j)
      {
         if (i == nan_at || j == nan_at) { continue; }
         ok = ok | ((l.x[i] <= x) & (x <= l.x[j]) & (l.x[j] - l.x[i] <= xtol) & (((l.f[i] <= 0.0) & (l.f[j] >= 0.0)) | ((l.f[i] >= 0.0) & (l.f[j] <= 0.0))));
      }
   }
   sym_assert(ok, "otherwise a sign change was bracketed within xtol");
   sym_reach("xtol");
}
extern "C" void h_bisection() { bisect(-1); }
extern "C" void h_bisection_nan() { bisect(sym_choice("nan_at", 0, 0, MAXIT)); }
static void sec(int nan_at)
{
   Log l;
   l.nan_at = nan_at;
   double x1 = sym_real_in("x1", 0, -4.0, 4.0), x2 = sym_real_in("x2", 0, -4.0, 4.0), ftol = sym_real_in("ftol", 0, 0.001, 1.0), xtol = sym_real_in("xtol", 0, 0.001, 1.0);
   sym_assume(x1 < x2 || x1 > x2);
   int maxit = sym_choice("maxiter", 0, 0, MAXIT - 1 + EXTRA);
   bool failed = false;
   double x = 0.0;
   auto fun = [&](double a) {
      double v = l.fresh(a);
      // the secant through two points of equal height has no root
      for (int i = 0; i + 1 < l.n; ++i) { if (i != nan_at && l.n - 1 != nan_at) { sym_assume(v < l.f[i] || v > l.f[i]); } }
      return v;
   };
   try { x = secant(fun, x1, x2, ftol, xtol, maxit); }
   catch (const MISOException &) { failed = true; }
   sym_assert(l.n <= maxit + 2, "no more evaluations than the iterations allow");
   if (failed)
   {
      sym_reach("failed");
      bool nan = nan_at >= 0 && l.n > nan_at;
      sym_assert(nan || l.n == maxit + 2, "failure is reported only when out of iterations");
      if (!nan)
      {
         for (int k = maxit == 0 ? 0 : l.n - 1; k < l.n; ++k) { sym_assert(l.f[k] > ftol || -l.f[k] > ftol, "failure is not reported at a root"); }
      }
      return;
   }
   sym_reach("found");
   sym_observe("x", x);
   int k = l.find(x);
   sym_assert(k >= 0, "the function was evaluated at the point returned");
   if (k < 0) { return; }
   if (l.f[k] <= ftol && l.f[k] >= -ftol) { sym_reach("ftol"); return; }
   sym_assert(l.n > 2 && k == l.n - 1, "otherwise the last increment is below xtol");
   double p = l.x[k - 1];
   if (k == 2) { p = ((l.f[0] < 0.0 ? -l.f[0] : l.f[0]) < (l.f[1] < 0.0 ? -l.f[1] : l.f[1])) ? l.x[0] : l.x[1]; }
   sym_assert(x - p < xtol && p - x < xtol, "otherwise the last increment is below xtol");
   sym_reach("xtol");
}
extern "C" void h_secant() { sec(-1); }
extern "C" void h_secant_nan() { sec(sym_choice("nan_at", 0, 0, 2)); }
// the points tried by the secant method are the roots of the secants
extern "C" void h_secant_steps()
{
   Log l;
   double x1 = sym_real_in("x1", 0, -4.0, 4.0), x2 = sym_real_in("x2", 0, -4.0, 4.0);
   sym_assume(x1 < x2 || x1 > x2);
   auto fun = [&](double a) {
      double v = l.fresh(a);
      for (int i = 0; i + 1 < l.n; ++i) { sym_assume(v < l.f[i] || v > l.f[i]); }
      return v;
   };
   try { secant(fun, x1, x2, 0.0, 0.0, 2); }
   catch (const MISOException &) { }
   if (l.n < 4) { return; }
   sym_assert_eq((l.f[1] - l.f[0]) * (l.x[2] - l.x[1]), -l.f[1] * (l.x[1] - l.x[0]), "each point is the root of a secant");
   int b = (l.f[0] < 0.0 ? -l.f[0] : l.f[0]) < (l.f[1] < 0.0 ? -l.f[1] : l.f[1]) ? 0 : 1;
   sym_assert_eq((l.f[2] - l.f[b]) * (l.x[3] - l.x[2]), -l.f[2] * (l.x[2] - l.x[b]), "each point is the root of the latest secant");
   sym_reach("done");
}
// a linear function is solved in one step
extern "C" void h_secant_linear()
{
   double a = sym_real_in("a", 0, 0.25, 4.0), r = sym_real_in("r", 0, -4.0, 4.0), x1 = sym_real_in("x1", 0, -4.0, 4.0), x2 = sym_real_in("x2", 0, -4.0, 4.0);
   sym_assume(x1 < x2 || x1 > x2);
   double x = secant([&](double t) { return a * (t - r); }, x1, x2, 0.0, 0.0, 5);
   sym_assert_eq(x, r, "the root of a linear function is found");
   sym_reach("done");
}
extern "C" void h_quadinterp()
{
   double a = sym_real_in("a", 0, 0.1, 4.0), b = sym_real_in("b", 0, -4.0, 4.0), c = sym_real_in("c", 0, -4.0, 4.0), x0 = sym_real_in("x0", 0, -4.0, 4.0), x1 = sym_real_in("x1", 0, -4.0, 4.0);
   sym_assume(x0 < x1 || x0 > x1);
   auto f = [&](double x) { return a * x * x + b * x + c; };
   double m = quadInterp(x0, f(x0), 2.0 * a * x0 + b, x1, f(x1));
   sym_assert_eq(m, -b / (2.0 * a), "minimiser of the parabola");
   sym_observe("m", m);
   sym_reach("done");
}
// ------------------------------------------------------- element-wise helpers
extern "C" void h_elementwise()
{
   const int n = sym_choice("n", 0, 1, 3 + EXTRA);
   Vector a(n), b(n), p(n), q(n), r(n), s(n), a2(n);
   for (int i = 0; i < n; ++i)
   {
      a(i) = sym_real_in("a", i, -4.0, 4.0);
      b(i) = sym_real_in("b", i, 0.25, 4.0);
   }
   a2 = a;
   multiplyElementwise(a, b, p);
   divideElementwise(a, b, q);
   invertElementwise(b, r);
   s = a;
   multiplyElementwise(b, s);
   for (int i = 0; i < n; ++i)
   {
      sym_assert_eq(p(i), a2(i) * b(i), "product");
      sym_assert_eq(q(i), a2(i) / b(i), "quotient");
      sym_assert_eq(r(i), 1.0 / b(i), "inverse");
      sym_assert_eq(s(i), a2(i) * b(i), "product in place");
      sym_assert_eq(a(i), a2(i), "arguments are not changed");
   }
   // results may overwrite an argument
   Vector u(a), v(b), w(a), z(b), y(b);
   multiplyElementwise(u, b, u);
   multiplyElementwise(a, v, v);
   divideElementwise(w, b, w);
   divideElementwise(a, z, z);
   invertElementwise(y, y);
   for (int i = 0; i < n; ++i)
   {
      sym_assert_eq(u(i), p(i), "product over its first factor");
      sym_assert_eq(v(i), p(i), "product over its second factor");
      sym_assert_eq(w(i), q(i), "quotient over its numerator");
      sym_assert_eq(z(i), q(i), "quotient over its denominator");
      sym_assert_eq(y(i), r(i), "inverse over its argument");
   }
   double t = dot<double, 1>(a.GetData(), b.GetData());
   sym_assert_eq(t, a(0) * b(0), "dot product");
   if (n >= 2) { t = dot<double, 2>(a.GetData(), b.GetData()); sym_assert_eq(t, p(0) + p(1), "dot product"); }
   if (n >= 3) { t = dot<double, 3>(a.GetData(), b.GetData()); sym_assert_eq(t, p(0) + p(1) + p(2), "dot product"); }
   sym_reach("done");
}
extern "C" void h_kernel()
{
   const int n = sym_choice("n", 0, 1, 3);
   double len = sym_real_in("len", 0, 0.1, 4.0), r2 = 0.0;
   Vector x(n), c(n);
   for (int i = 0; i < n; ++i) { x(i) = sym_real_in("x", i, -4.0, 4.0); c(i) = sym_real_in("c", i, -4.0, 4.0); r2 += (x(i) - c(i)) * (x(i) - c(i)); }
   double k = squaredExponential(len, c, x);
   sym_assert_eq(k, exp(-r2 / (len * len)), "squared exponential");
   sym_assert_eq(squaredExponential(len, x, c), k, "the kernel is symmetric");
   sym_assert_eq(squaredExponential(len, x, x), 1.0, "the kernel is one at its centre");
   sym_observe("k", k);
   sym_reach("done");
}
// --------------------------------------------------------- boundary attributes
static void expect(const mfem::Array<int> &a, int n, const bool *in, const char *l)
{
   sym_assert(a.Size() == n, l);
   for (int i = 0; i < n; ++i) { sym_assert(a[i] == (in[i] ? 1 : 0), l); }
}
extern "C" void h_attributes()
{
   const int n = sym_choice("size", 0, 1, 4), k = sym_choice("count", 0, 0, 2 + EXTRA);
   mfem::Array<int> a(n);
   for (int i = 0; i < n; ++i) { a[i] = sym_int("old", i, -3, 3); }
   std::vector<int> v;
   bool in[4] = {}, bad = false;
   for (int i = 0; i < k; ++i)
   {
      v.push_back(sym_choice("attr", i, 0, 5));
      if (v[i] < 1 || v[i] > n) { bad = true; }
      else { in[v[i] - 1] = true; }
   }
   bool refused = false;
   try { attrVecToArray(v, a); }
   catch (const MISOException &) { refused = true; }
   sym_assert(refused == bad, "exactly the attributes that do not exist are refused");
   if (refused) { sym_reach("refused"); return; }
   expect(a, n, in, "exactly the named attributes are marked");
   sym_reach("done");
}
extern "C" void h_boundary()
{
   const int n = sym_choice("size", 0, 1, 3), kind = sym_choice("kind", 0, 0, 5);
   mfem::Array<int> a(n);
   for (int i = 0; i < n; ++i) { a[i] = sym_int("old", i, -3, 3); }
   bool in[3] = {}, refused = false;
   nlohmann::json j;
   if (kind == 0) { j = "all"; in[0] = in[1] = in[2] = true; }
   else if (kind == 1) { j = "none"; }
   else if (kind == 2)
   {
      int m = sym_choice("first", 0, 1, n), q = sym_choice("second", 0, 1, n);
      j = nlohmann::json::array();
      j.push_back(m);
      j.push_back(q);
      in[m - 1] = in[q - 1] = true;
   }
   else if (kind == 3) { j = "some"; }
   else if (kind == 4) { j = 1; }
   else { j = nlohmann::json::array(); }
   try { getMFEMBoundaryArray(j, a); }
   catch (const MISOException &) { refused = true; }
   sym_assert(refused == (kind == 3 || kind == 4), "anything but all, none or a list is refused");
   if (refused) { sym_reach("refused"); return; }
   expect(a, n, in, "boundary marker");
   sym_reach("done");
}
// ------------------------------------------------------------------ dispatch
static double twice(double x) { return 2.0 * x; }
struct Fun
{
   double operator()(int i) const { return 10.0 + i; }
};
extern "C" void h_dispatch()
{
   double x = sym_real_in("x", 0, -4.0, 4.0);
   int i = sym_choice("i", 0, -1, 2), kind = sym_choice("kind", 0, 0, 3), called = -1;
   std::any a;
   if (kind == 0) { a = x; }
   else if (kind == 1) { a = i; }
   else if (kind == 2) { a = std::string("text"); }
   double r = useAny(a, [&](double v) { called = 0; return v; }, [&](int v) { called = 1; return 1.0 * v; });
   if (kind == 0) { sym_assert(called == 0, "the callable of the stored type is used"); sym_assert_eq(r, x, "with the stored value"); }
   else if (kind == 1) { sym_assert(called == 1, "the callable of the stored type is used"); sym_assert_eq(r, 1.0 * i, "with the stored value"); }
   else { sym_assert(called == -1, "no callable is used for another type"); sym_assert(std::isnan(r), "and the result says so"); }
   auto f = make_function(twice);
   auto g = make_function(Fun());
   auto h = make_function([&](double t) { return t + x; });
   sym_assert_eq(f(x), 2.0 * x, "wrapped function");
   sym_assert_eq(g(i), 10.0 + i, "wrapped functor");
   sym_assert_eq(h(1.0), 1.0 + x, "wrapped lambda");
   static_assert(is_callable_v<Fun> && !is_callable_v<double>, "");
   double own = x;
   MaybeOwningPointer<double> p = &own, q = std::make_unique<double>(2.0 * x);
   sym_assert(&retrieve(p) == &own, "borrowed pointers are dereferenced");
   sym_assert_eq(retrieve(q), 2.0 * x, "owned pointers are dereferenced");
   const int rank = sym_choice("rank", 0, 0, 2);
   const bool silent = sym_choice("silent", 0, 0, 1);
   std::ostream *o = getOutStream(rank, silent);
   sym_assert((o == &std::cout) == (rank == 0 && !silent), "only the root prints, and only when asked to");
   sym_reach("done");
}
// ---------------------------------------------------- least-squares operators
#ifdef MFEM_USE_LAPACK
// monomials of degree p
static int basis(int dim, int p, const double *x, double *m)
{
   int n = 0;
   for (int a = 0; a <= p; ++a)
   {
      for (int b = 0; b <= (dim > 1 ? p - a : 0); ++b)
      {
         for (int c = 0; c <= (dim > 2 ? p - a - b : 0); ++c)
         {
            double v = 1.0;
            for (int k = 0; k < a; ++k) { v *= x[0]; }
            for (int k = 0; k < b; ++k) { v *= x[1]; }
            for (int k = 0; k < c; ++k) { v *= x[2]; }
            m[n++] = v;
         }
      }
   }
   return n;
}
// centres: a unisolvent principal lattice and one point more, shifted and scaled;
// the first centre anywhere
static int lattice(int dim, int p, DenseMatrix &X)
{
   static const double s[3] = {0.5, 0.75, 1.25};
   std::vector<double> v;
   int n = 0;
   for (int a = 0; a <= p; ++a)
   {
      for (int b = 0; b <= (dim > 1 ? p - a : 0); ++b)
      {
         for (int c = 0; c <= (dim > 2 ? p - a - b : 0); ++c)
         {
            const double x[3] = {double(a), double(b), double(c)};
            for (int d = 0; d < dim; ++d) { v.push_back(0.25 + s[d] * x[d]); }
            ++n;
         }
      }
   }
   for (int d = 0; d < dim; ++d) { v.push_back(-0.5 - 0.25 * d); }
   ++n;
   X.SetSize(dim, n);
   for (int i = 0; i < n * dim; ++i) { X.GetData()[i] = v[i]; }
   return n;
}
static void reproduce(int dim, int p, bool ls)
{
   DenseMatrix X, Q(dim, 2), R;
   const int n = lattice(dim, p, X);
   const double sh = sym_real_in("shift", 0, -1.0, 1.0);
   for (int i = 0; i < n * dim; ++i) { X.GetData()[i] += sh; }
   for (int i = 0; i < 2 * dim; ++i) { Q.GetData()[i] = sym_real_in("q", i, -2.0, 2.0); }
   DenseMatrix X0(X), Q0(Q);
   if (ls) { buildLSInterpolation(dim, p, X, Q, R); }
   else { buildInterpolation(dim, p, X, Q, R); }
   sym_assert(R.Height() == 2 && R.Width() == n, "one row per point, one column per centre");
   double m[40], r[40];
   for (int j = 0; j < 2; ++j)
   {
      double q[3], x[3];
      for (int d = 0; d < dim; ++d) { q[d] = Q0(d, j) - sh; }
      int nb = basis(dim, p, q, r);
      double sum[40] = {};
      for (int i = 0; i < n; ++i)
      {
         for (int d = 0; d < dim; ++d) { x[d] = X0(d, i) - sh; }
         basis(dim, p, x, m);
         for (int k = 0; k < nb; ++k) { sum[k] += R(j, i) * m[k]; }
      }
      for (int k = 0; k < nb; ++k) { sym_assert_near(sum[k], r[k], 1e-8, "polynomials are reproduced"); }
   }
   for (int i = 0; i < n * dim; ++i) { sym_assert_eq(X.GetData()[i], X0.GetData()[i], "centres are not changed"); }
   sym_reach("done");
}
#ifdef VERIF_THOROUGH
static const int D1 = 4, D2 = 3, D3 = 2;
#else
static const int D1 = 3, D2 = 2, D3 = 1;
#endif
extern "C" void h_ls_1() { reproduce(1, sym_choice("degree", 0, 0, D1), true); }
extern "C" void h_ls_2() { reproduce(2, sym_choice("degree", 0, 0, D2), true); }
extern "C" void h_ls_3() { reproduce(3, sym_choice("degree", 0, 0, D3), true); }
extern "C" void h_mn_1() { reproduce(1, sym_choice("degree", 0, 0, D1 - 1), false); }
extern "C" void h_mn_2() { reproduce(2, sym_choice("degree", 0, 0, D2 - 1), false); }
#endif
