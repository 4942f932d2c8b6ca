#include <cmath>
#include "mfem.hpp"
#include "orthopoly.hpp"
#include "sym.h"
using mfem::Vector;
using mfem::DenseMatrix;
#ifdef VERIF_THOROUGH
static const int MAXN = 13, MAXDEG = 7, SEGDEG = 6, TRIDEG = 5, TETDEG = 3;
#else
static const int MAXN = 9, MAXDEG = 5, SEGDEG = 5, TRIDEG = 3, TETDEG = 2;
#endif
extern "C" void h_lobatto()
{
   const int n = sym_choice("n", 0, 2, MAXN);
   Vector x(n), w(n);
   miso::getLobattoQuadrature(n, x, w);
   double sum = 0.0;
   for (int i = 0; i < n; ++i)
   {
      sym_observe("x", x(i));
      sym_observe("w", w(i));
      sym_assert(w(i) > 0.0, "weights are positive");
      if (i) { sym_assert(x(i) > x(i - 1), "nodes are increasing"); }
      sym_assert(std::fabs(x(i) + x(n - 1 - i)) < 1e-13 && std::fabs(w(i) - w(n - 1 - i)) < 1e-13, "nodes and weights are symmetric");
   }
   sym_assert(std::fabs(x(0) + 1.0) < 1e-13 && std::fabs(x(n - 1) - 1.0) < 1e-13, "end points are nodes");
   // every polynomial of degree 2n-3 with coefficients in [-1,1]
   double q = 0.0, e = 0.0;
   for (int k = 0; k <= 2 * n - 3; ++k)
   {
      double c = sym_real_in("c", k, -1.0, 1.0), m = 0.0;
      for (int i = 0; i < n; ++i) { m += w(i) * std::pow(x(i), k); }
      q += c * m;
      e += c * (k % 2 ? 0.0 : 2.0 / (k + 1));
   }
   sym_assert(std::fabs(q - e) < 1e-11, "the rule is exact for degree 2n-3");
   sym_reach("done");
}
static double binom(double n, int k)
{
   double r = 1.0;
   for (int i = 0; i < k; ++i) { r = r * (n - i) / (i + 1); }
   return r;
}
static double fact(int n) { double r = 1.0; for (int i = 2; i <= n; ++i) { r *= i; } return r; }
static double ipow(double x, int n) { double r = 1.0; for (int i = 0; i < n; ++i) { r *= x; } return r; }
// P_n^(a,b) in homogeneous form: u stands for (x-1)/2, v for (x+1)/2
static double jac(double u, double v, int a, int b, int n)
{
   double s = 0.0;
   for (int k = 0; k <= n; ++k) { s += binom(n + a, n - k) * binom(n + b, k) * ipow(u, k) * ipow(v, n - k); }
   return s;
}
// squared norm of P_n^(a,b) with weight (1-x)^a (1+x)^b
static double norm2(int a, int b, int n)
{
   return ipow(2.0, a + b + 1) / (2 * n + a + b + 1) * (fact(n + a) * fact(n + b)) / (fact(n) * fact(n + a + b));
}
extern "C" void h_jacobi()
{
   const int n = sym_choice("degree", 0, 0, MAXDEG), a = sym_choice("alpha", 0, 0, 5), b = sym_choice("beta", 0, 0, 2);
   Vector x(2), p(2);
   for (int i = 0; i < 2; ++i) { x(i) = sym_real_in("x", i, -1.0, 1.0); }
   miso::jacobiPoly(x, a, b, n, p);
   for (int i = 0; i < 2; ++i)
   {
      sym_observe("p", p(i));
      sym_assert_eq(p(i), jac((x(i) - 1) / 2, (x(i) + 1) / 2, a, b, n) / sqrt(norm2(a, b, n)), "normalised Jacobi polynomial");
   }
   sym_reach("done");
}
extern "C" void h_seg()
{
   const int deg = sym_choice("degree", 0, 0, SEGDEG);
   Vector x(2);
   for (int i = 0; i < 2; ++i) { x(i) = sym_real_in("x", i, -1.0, 1.0); }
   DenseMatrix V;
   miso::getVandermondeForSeg(x, deg, V);
   sym_assert(V.Height() == 2 && V.Width() == deg + 1, "size");
   sym_observe("last", V(1, deg));
   for (int i = 0; i < 2; ++i)
   {
      for (int n = 0; n <= deg; ++n)
      {
         sym_assert_eq(V(i, n), jac((x(i) - 1) / 2, (x(i) + 1) / 2, 0, 0, n) / sqrt(norm2(0, 0, n)), "entry");
      }
   }
   sym_reach("done");
}
static double triRef(double x, double y, int i, int j)
{
   return sqrt(2.0) * jac(x + y, 1 + x, 0, 0, i) / sqrt(norm2(0, 0, i)) * jac((y - 1) / 2, (y + 1) / 2, 2 * i + 1, 0, j) / sqrt(norm2(2 * i + 1, 0, j));
}
static double tetRef(double x, double y, double z, int i, int j, int k)
{
   double L = jac(1 + x + y + z, 1 + x, 0, 0, i) * ipow(2.0, i) / sqrt(norm2(0, 0, i));
   double J = jac(y + z, 1 + y, 2 * i + 1, 0, j) / sqrt(norm2(2 * i + 1, 0, j));
   double K = jac((z - 1) / 2, (z + 1) / 2, 2 * i + 2 * j + 2, 0, k) / sqrt(norm2(2 * i + 2 * j + 2, 0, k));
   return sqrt(8.0) * L * J * K;
}
extern "C" void h_tri()
{
   const int deg = sym_choice("degree", 0, 0, TRIDEG);
   Vector x(2), y(2);
   for (int i = 0; i < 2; ++i)
   {
      x(i) = sym_real_in("x", i, -1.0, 1.0);
      y(i) = sym_real_in("y", i, -1.0, 1.0);
      sym_assume(x(i) + y(i) <= 0.0);
   }
   DenseMatrix V;
   miso::getVandermondeForTri(x, y, deg, V);
   sym_assert(V.Height() == 2 && V.Width() == (deg + 1) * (deg + 2) / 2, "size");
   sym_observe("last", V(1, V.Width() - 1));
   for (int m = 0; m < 2; ++m)
   {
      int c = 0;
      for (int r = 0; r <= deg; ++r)
      {
         for (int j = 0; j <= r; ++j) { sym_assert_eq(V(m, c), triRef(x(m), y(m), r - j, j), "entry"); ++c; }
      }
   }
   sym_reach(y(0) == 1.0 ? "vertex" : "regular");
}
extern "C" void h_tet()
{
   const int deg = sym_choice("degree", 0, 0, TETDEG);
   Vector x(1), y(1), z(1);
   x(0) = sym_real_in("x", 0, -1.0, 1.0);
   y(0) = sym_real_in("y", 0, -1.0, 1.0);
   z(0) = sym_real_in("z", 0, -1.0, 1.0);
   sym_assume(x(0) + y(0) + z(0) <= -1.0);
   DenseMatrix V;
   miso::getVandermondeForTet(x, y, z, deg, V);
   sym_assert(V.Height() == 1 && V.Width() == (deg + 1) * (deg + 2) * (deg + 3) / 6, "size");
   sym_observe("last", V(0, V.Width() - 1));
   int c = 0;
   for (int r = 0; r <= deg; ++r)
   {
      for (int k = 0; k <= r; ++k)
      {
         for (int j = 0; j <= r - k; ++j) { sym_assert_eq(V(0, c), tetRef(x(0), y(0), z(0), r - j - k, j, k), "entry"); ++c; }
      }
   }
   sym_reach(z(0) == 1.0 ? "vertex" : y(0) + z(0) == 0.0 ? "edge" : "regular");
}
