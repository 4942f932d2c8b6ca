// The lumped mass matrix on every SBP element under affine and quadratic maps.
#include "sbp_fe.cpp"
#include "diag_mass_integ.hpp"
// shape functions that are monomials, so that the point matrix holds the map's coefficients
struct Powers : FiniteElement
{
   explicit Powers(int d) : FiniteElement(d, d == 1 ? Geometry::SEGMENT : d == 2 ? Geometry::TRIANGLE : Geometry::TETRAHEDRON, 1 + 2 * d, 2) { }
   static double c(const IntegrationPoint &q, int i) { return i == 0 ? q.x : i == 1 ? q.y : q.z; }
   void CalcShape(const IntegrationPoint &q, Vector &s) const override
   {
      s(0) = 1.0;
      for (int i = 0; i < dim; ++i) { s(1 + i) = c(q, i); s(1 + dim + i) = c(q, i) * c(q, i); }
   }
   void CalcDShape(const IntegrationPoint &q, DenseMatrix &d) const override
   {
      d = 0.0;
      for (int i = 0; i < dim; ++i) { d(1 + i, i) = 1.0; d(1 + dim + i, i) = 2.0 * c(q, i); }
   }
};
static void diagmass(int c, bool affine, bool vary)
{
   El E(c);
   const int d = E.dim, ns = sym_choice("states", 0, 1, 3);
   Powers fe(d);
   DenseMatrix P(d, 1 + 2 * d);
   P = 0.0;
   double a[3][3], q[3] = {0, 0, 0};
   for (int i = 0; i < d; ++i)
   {
      P(i, 0) = sym_real_in("x0", i, -2.0, 2.0);
      for (int j = 0; j < d; ++j) { P(i, 1 + j) = a[i][j] = i == j ? sym_real_in("a", 3 * i + j, 1.0, 2.0) : sym_real_in("a", 3 * i + j, -0.25, 0.25); }
      if (!affine) { P(i, 1 + d + (i + 1) % d) = q[i] = sym_real_in("q", i, -0.0625, 0.0625); }
   }
   IsoparametricTransformation T;
   T.SetFE(&fe);
   T.SetPointMat(P);
   T.Attribute = 1;
   T.ElementNo = 0;
   T.ElementType = ElementTransformation::ELEMENT;
   T.mesh = nullptr;
   miso::DiagMassIntegrator plain(ns), varying(ns, vary), scalar;
   DenseMatrix m(2, 3);
   m = 7.0;
   (vary ? varying : ns == 1 ? scalar : plain).AssembleElementMatrix(*E.e, T, m);
   sym_assert(m.Height() == ns * E.n && m.Width() == ns * E.n, "size of the mass matrix");
   double sum = 0.0;
   for (int i = 0; i < E.n; ++i)
   {
      const double *x = E.pt(i);
      double J[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
      for (int r = 0; r < d; ++r) { for (int s = 0; s < d; ++s) { J[r][s] = a[r][s] + (s == (r + 1) % d ? 2.0 * q[r] * x[s] : 0.0); } }
      const double det = J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
      const double w = E.e->GetNodes().IntPoint(i).weight, e = m(i, i);
      if (!vary) { sym_assert_near(e, w * det, 1e-12, "entry is the weight times the determinant"); }
      else { sym_assert_near(ipow(e, d) * det, ipow(w * det, d), 1e-12, "entry over the local length scale"); }
      if (i == 0 || i == E.n - 1) { sym_assert(e > 0.0, "entries are positive"); }
      sum += e;
      for (int k = 0; k < ns; ++k) { sym_assert_eq(m(i + k * E.n, i + k * E.n), e, "the same for every state"); }
   }
   for (int i = 0; i < ns * E.n; ++i) { for (int j = 0; j < ns * E.n; ++j) { if (i != j) { sym_assert_eq(m(i, j), 0.0, "the mass matrix is diagonal"); } } }
   if (affine && !vary)
   {
      double D = a[0][0];
      if (d == 2) { D = a[0][0] * a[1][1] - a[0][1] * a[1][0]; }
      if (d == 3) { D = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
      sym_assert_near(sum, D / fact(d), 1e-11, "the entries add up to the measure of the element");
   }
   sym_reach("done");
}
#ifdef VERIF_THOROUGH
static int pick() { return choice(); }
#else
static int pick() { const int k = sym_choice("element", 0, 0, 2); return 10 * k + sym_choice("degree", 0, 0, k == 2 ? 1 : 2); }
#endif
extern "C" void h_mass_affine() { diagmass(pick(), true, false); }
extern "C" void h_mass_curved() { diagmass(pick(), false, false); }
extern "C" void h_mass_vary() { diagmass(pick(), sym_choice("affine", 0, 0, 1), true); }
