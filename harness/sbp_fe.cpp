#include <cmath>
#include <memory>
#include <vector>
#include "mfem.hpp"
#include "sbp_fe.hpp"
#include "utils.hpp"
#include "sym.h"
using namespace mfem;
static const double TOL = 1e-11;
static const int triNodes[5] = {3, 7, 12, 18, 27};
static int choice(int kinds = 3)
{
   int k = sym_choice("element", 0, 0, kinds - 1);
   return 10 * k + (k == 2 ? sym_choice("degree", 0, 0, 1) : sym_choice("degree", 0, 0, 4));
}
static SBPFiniteElement *make(int c)
{
   int p = c % 10;
   if (c / 10 == 0) { return new SBPSegmentElement(p); }
   if (c / 10 == 1) { return new SBPTriangleElement(p, triNodes[p]); }
   return new SBPTetrahedronElement(p, p ? 14 : 4);
}
struct Mono { int e[3]; };
static std::vector<Mono> monos(int dim, int deg)
{
   std::vector<Mono> r;
   for (int s = 0; s <= deg; ++s)
   {
      for (int a = s; a >= 0; --a)
      {
         for (int b = s - a; b >= 0; --b)
         {
            int c = s - a - b;
            if ((dim < 2 && b) || (dim < 3 && c)) { continue; }
            r.push_back({{a, b, c}});
         }
      }
   }
   return r;
}
static double ipow(double x, int n) { double r = 1.0; for (int i = 0; i < n; ++i) { r *= x; } return r; }
static double fact(int n) { double r = 1.0; for (int i = 2; i <= n; ++i) { r *= i; } return r; }
static double val(const Mono &m, const double *x, int dim) { double r = 1.0; for (int d = 0; d < dim; ++d) { r *= ipow(x[d], m.e[d]); } return r; }
static double dval(const Mono &m, const double *x, int dim, int di)
{
   if (m.e[di] == 0) { return 0.0; }
   double r = m.e[di];
   for (int d = 0; d < dim; ++d) { r *= ipow(x[d], m.e[d] - (d == di)); }
   return r;
}
// integral over the unit simplex
static double integral(const Mono &m, int dim) { return fact(m.e[0]) * fact(m.e[1]) * fact(m.e[2]) / fact(m.e[0] + m.e[1] + m.e[2] + dim); }
struct El
{
   std::unique_ptr<SBPFiniteElement> e;
   int dim, p, n;
   std::vector<double> x;
   explicit El(int c) : e(make(c)), dim(c / 10 + 1), p(c % 10)
   {
      n = e->GetDof();
      x.resize(3 * n);
      for (int d = 0; d < dim; ++d)
      {
         Vector xd;
         e->getNodeCoords(d, xd);
         for (int i = 0; i < n; ++i) { x[3 * i + d] = xd(i); }
      }
   }
   const double *pt(int i) const { return &x[3 * i]; }
};
static void NEAR(double a, double b, const char *label) { sym_assert_near(a, b, TOL, label); }
// nodal values of an arbitrary polynomial of the element's degree and its derivatives
struct Poly
{
   DenseMatrix u, du;
   Poly(El &E, int di, const char *name) : u(1, E.n), du(1, E.n)
   {
      int k = 0;
      for (auto &m : monos(E.dim, E.p))
      {
         double c = sym_real_in(name, k++, -1.0, 1.0);
         for (int i = 0; i < E.n; ++i)
         {
            u(0, i) += c * val(m, E.pt(i), E.dim);
            du(0, i) += c * dval(m, E.pt(i), E.dim, di);
         }
      }
   }
};
static void accuracy(int c)
{
   El E(c);
   const int di = E.dim == 1 ? 0 : sym_choice("direction", 0, 0, E.dim - 1);
   Poly f(E, di, "c");
   const Vector &H = E.e->returnDiagNorm();
   DenseMatrix Qu(1, E.n), D(E.n), Q(E.n);
   Qu = 0.0;
   E.e->multWeakOperator(di, f.u, Qu);
   E.e->getStrongOperator(di, D);
   E.e->getWeakOperator(di, Q);
   for (int i = 0; i < E.n; ++i)
   {
      NEAR(Qu(0, i), H(i) * f.du(0, i), "Q differentiates polynomials up to the degree");
      Vector r(1), row;
      E.e->multStrongOperator(di, i, f.u, r);
      NEAR(r(0), f.du(0, i), "D differentiates polynomials up to the degree");
      E.e->multWeakOperator(di, i, f.u, r);
      NEAR(r(0), Qu(0, i), "Q at one node");
      E.e->getStrongOperator(di, i, row);
      double a = 0.0, b = 0.0, d = 0.0;
      for (int j = 0; j < E.n; ++j)
      {
         a += D(i, j) * f.u(0, j);
         b += Q(i, j) * f.u(0, j);
         d += row(j) * f.u(0, j);
         sym_assert(E.e->getQ(di, i, j) == Q(i, j), "entry of Q");
      }
      NEAR(a, f.du(0, i), "matrix D");
      NEAR(b, Qu(0, i), "matrix Q");
      NEAR(d, f.du(0, i), "row of D");
   }
   sym_observe("last", Qu(0, E.n - 1));
   sym_reach("done");
}
extern "C" void h_acc_seg() { accuracy(sym_choice("degree", 0, 0, 4)); }
extern "C" void h_acc_tri() { accuracy(10 + sym_choice("degree", 0, 0, 4)); }
extern "C" void h_acc_tet() { accuracy(20 + sym_choice("degree", 0, 0, 1)); }
extern "C" void h_mass()
{
   const int c = choice();
   El E(c);
   const Vector &H = E.e->returnDiagNorm();
   double s = 0.0, r = 0.0;
   int k = 0;
   for (auto &m : monos(E.dim, 2 * E.p))
   {
      double a = sym_real_in("c", k++, -1.0, 1.0), t = 0.0;
      for (int i = 0; i < E.n; ++i) { t += H(i) * val(m, E.pt(i), E.dim); }
      s += a * t;
      r += a * integral(m, E.dim);
   }
   NEAR(s, r, "the norm integrates polynomials of twice the degree");
   double u = sym_real_in("u", 0, -5.0, 5.0);
   DenseMatrix U(2, E.n), HU(2, E.n);
   for (int i = 0; i < E.n; ++i)
   {
      sym_assert(H(i) > 0.0, "weights are positive");
      sym_assert(H(i) == E.e->getDiagNormEntry(i) && H(i) == E.e->GetNodes().IntPoint(i).weight, "entry of the norm");
      U(0, i) = u + i;
      U(1, i) = 2 * u;
   }
   E.e->multNormMatrix(U, HU);
   for (int i = 0; i < E.n; ++i) { sym_assert_eq(HU(0, i), H(i) * U(0, i), "norm product"); sym_assert_eq(HU(1, i), H(i) * U(1, i), "norm product"); }
   E.e->multNormMatrixInv(HU, HU);
   for (int i = 0; i < E.n; ++i) { NEAR(HU(0, i), U(0, i), "the inverse norm inverts in place"); NEAR(HU(1, i), U(1, i), "the inverse norm inverts in place"); }
   sym_observe("H", H(0));
   sym_reach("done");
}
static void sbp(int c)
{
   El E(c);
   const int di = E.dim == 1 ? 0 : sym_choice("direction", 0, 0, E.dim - 1);
   DenseMatrix v(1, E.n), a(1, E.n);
   for (int i = 0; i < E.n; ++i) { v(0, i) = sym_real_in("v", i, -1.0, 1.0); }
   a = 0.0;
   E.e->multWeakOperator(di, v, a);
   DenseMatrix b(1, E.n);
   b = 0.0;
   E.e->multWeakOperator(di, v, b, true);     // adds -Q^T v
   // the lowest-order triangle is the linear finite element, whose boundary
   // operator is not diagonal
   const bool diag = !(E.dim == 2 && E.p == 0);
   for (int i = 0; i < E.n; ++i)
   {
      if (!diag) { continue; }
      NEAR(a(0, i) - b(0, i), 2 * E.e->getQ(di, i, i) * v(0, i), "Q + Q^T is a diagonal boundary operator");
      bool face = false;
      double s = 0.0;
      for (int d = 0; d < E.dim; ++d) { s += E.pt(i)[d]; if (std::fabs(E.pt(i)[d]) < TOL) { face = true; } }
      if (std::fabs(s - 1.0) < TOL) { face = true; }
      if (!face) { sym_assert_near(E.e->getQ(di, i, i), 0.0, TOL, "the boundary operator vanishes at interior nodes"); }
   }
   double s = 0.0, r = 0.0;
   int k = 0;
   for (auto &m : monos(E.dim, 2 * E.p))
   {
      double cc = sym_real_in("c", k++, -1.0, 1.0), t = 0.0;
      for (int i = 0; i < E.n; ++i)
      {
         if (diag) { t += 2 * E.e->getQ(di, i, i) * val(m, E.pt(i), E.dim); continue; }
         for (int j = 0; j < E.n; ++j) { t += (E.e->getQ(di, i, j) + E.e->getQ(di, j, i)) * val(m, E.pt(i), E.dim); }
      }
      s += cc * t;
      if (m.e[di])
      {
         Mono dm = m;
         --dm.e[di];
         r += cc * m.e[di] * integral(dm, E.dim);
      }
   }
   NEAR(s, r, "the boundary operator integrates over the boundary");
   sym_observe("last", a(0, E.n - 1));
   sym_reach("done");
}
extern "C" void h_sbp_seg() { sbp(sym_choice("degree", 0, 0, 4)); }
extern "C" void h_sbp_tri() { sbp(10 + sym_choice("degree", 0, 0, 4)); }
extern "C" void h_sbp_tet() { sbp(20 + sym_choice("degree", 0, 0, 1)); }
// the stabilisation projector
static void proj(int c)
{
   El E(c);
   const Vector &H = E.e->returnDiagNorm();
   Poly f(E, 0, "c");
   DenseMatrix Pf(1, E.n), P(E.n);
   E.e->multProjOperator(f.u, Pf);
   E.e->getProjOperator(P);
   for (int i = 0; i < E.n; ++i)
   {
      NEAR(Pf(0, i), 0.0, "polynomials up to the degree are removed");
      double s = 0.0;
      for (int j = 0; j < E.n; ++j) { s += P(i, j) * f.u(0, j); }
      NEAR(s, 0.0, "the matrix removes polynomials up to the degree");
   }
   DenseMatrix v(2, E.n), w(2, E.n), ww(2, E.n), t(2, E.n);
   for (int i = 0; i < E.n; ++i) { v(0, i) = sym_real_in("v", i, -1.0, 1.0); v(1, i) = v(0, 0) + i; }
   E.e->multProjOperator(v, w);
   E.e->multProjOperator(w, ww);
   E.e->multProjOperator(v, t, true);
   for (int i = 0; i < E.n; ++i)
   {
      double a = 0.0, b = 0.0;
      for (int j = 0; j < E.n; ++j)
      {
         a += P(i, j) * v(0, j);
         b += P(j, i) * v(0, j);
         NEAR(H(i) * P(i, j), H(j) * P(j, i), "the projector is self-adjoint in the norm");
         NEAR(P(i, j), E.e->getProjOperatorEntry(i, j), "entry of the projector");
      }
      NEAR(w(0, i), a, "product with the projector");
      NEAR(t(0, i), b, "product with the transposed projector");
      NEAR(ww(0, i), w(0, i), "the projector is idempotent");
   }
   sym_observe("last", w(0, E.n - 1));
   sym_reach("done");
}
extern "C" void h_proj_seg() { proj(sym_choice("degree", 0, 0, 4)); }
extern "C" void h_proj_tri() { proj(10 + sym_choice("degree", 0, 0, 4)); }
extern "C" void h_proj_tet() { proj(20 + sym_choice("degree", 0, 0, 1)); }
// basis functions: nodal at the nodes, and reproducing polynomials elsewhere
static void shape(int c)
{
   El E(c);
   Vector s(E.n);
   for (int i = 0; i < E.n; ++i)
   {
      E.e->CalcShape(E.e->GetNodes().IntPoint(i), s);
      for (int j = 0; j < E.n; ++j) { sym_assert(s(j) == (i == j ? 1.0 : 0.0), "basis functions are nodal"); }
   }
   IntegrationPoint ip;
   double x[3] = {0, 0, 0};
   for (int d = 0; d < E.dim; ++d) { x[d] = sym_real_in("x", d, 0.0, 1.0); }
   sym_assume(x[0] + x[1] + x[2] <= 1.0);
   ip.x = x[0]; ip.y = x[1]; ip.z = x[2];
   E.e->CalcShape(ip, s);
   for (auto &m : monos(E.dim, E.p))
   {
      double t = 0.0;
      for (int i = 0; i < E.n; ++i) { t += s(i) * val(m, E.pt(i), E.dim); }
      sym_assert_near(t, val(m, x, E.dim), 1e-9, "basis functions reproduce polynomials up to the degree");
   }
   sym_observe("last", s(E.n - 1));
   sym_reach("done");
}
extern "C" void h_shape_seg() { shape(sym_choice("degree", 0, 0, 4)); }
extern "C" void h_shape_tri() { shape(10 + sym_choice("degree", 0, 0, 4)); }
extern "C" void h_shape_tet() { shape(20 + sym_choice("degree", 0, 0, 1)); }
// derivatives of the basis functions, at nodes given by address and by coordinates
static void dshape(int c)
{
   El E(c);
   const bool copy = sym_choice("copy", 0, 0, 1);
   DenseMatrix ds(E.n, E.dim);
   DenseMatrix u(1, E.n);
   for (int j = 0; j < E.n; ++j) { u(0, j) = sym_real_in("u", j, -1.0, 1.0); }
   Vector r(1);
   for (int i = 0; i < E.n; ++i)
   {
      IntegrationPoint ip = E.e->GetNodes().IntPoint(i);
      E.e->CalcDShape(copy ? ip : E.e->GetNodes().IntPoint(i), ds);
      for (int di = 0; di < E.dim; ++di)
      {
         E.e->multStrongOperator(di, i, u, r);
         double s = 0.0;
         for (int j = 0; j < E.n; ++j) { s += ds(j, di) * u(0, j); }
         (void)r;
         sym_assert_near(s * E.e->getDiagNormEntry(i), r(0) * E.e->getDiagNormEntry(i), TOL, "derivatives of the basis functions are the rows of D");
      }
   }
   sym_reach(copy ? "copy" : "node");
}
extern "C" void h_dshape_seg() { dshape(sym_choice("degree", 0, 0, 4)); }
extern "C" void h_dshape_tri() { dshape(10 + sym_choice("degree", 0, 0, 4)); }
extern "C" void h_dshape_tet() { dshape(20 + sym_choice("degree", 0, 0, 1)); }
// finding a node by its coordinates
static void node_index(int c)
{
   El E(c);
   IntegrationPoint ip;
   double x[3] = {0, 0, 0};
   for (int d = 0; d < E.dim; ++d) { x[d] = sym_real_in("x", d, 0.0, 1.0); }
   ip.x = x[0]; ip.y = x[1]; ip.z = x[2];
   auto find = [&]() { try { return E.e->getIntegrationPointIndex(ip); } catch (const std::exception &) { return -1; } };
   const int r = find();
   for (int i = 0; i < E.n; ++i)
   {
      double d2 = 0.0;
      for (int d = 0; d < E.dim; ++d) { d2 += (x[d] - E.pt(i)[d]) * (x[d] - E.pt(i)[d]); }
      if (i == r) { sym_assert(d2 < 1e-10, "the node found has the coordinates"); }
      if (r < 0) { sym_assert(d2 > 1e-26, "a node is not missed"); }
   }
   for (int i = 0; i < E.n; ++i)
   {
      ip.x = E.pt(i)[0]; ip.y = E.pt(i)[1]; ip.z = E.pt(i)[2];
      sym_assert(find() == i, "a node is found by its own coordinates");
   }
   sym_reach(r < 0 ? "none" : "found");
}
extern "C" void h_index_seg() { node_index(sym_choice("degree", 0, 0, 2)); }
extern "C" void h_index_tri() { node_index(10 + sym_choice("degree", 0, 0, 2)); }
extern "C" void h_index_tet() { node_index(20 + sym_choice("degree", 0, 0, 1)); }
// operators in physical space
static void phys(int c, int stride)
{
   El E(c);
   const int di = E.dim == 1 ? 0 : sym_choice("direction", 0, 0, E.dim - 1);
   DenseMatrix A(E.dim), B(E.dim), Ab(E.dim), Bb(E.dim);
   for (int a = 0; a < E.dim; ++a)
   {
      for (int b = 0; b < E.dim; ++b)
      {
         A(a, b) = sym_real_in("A", 3 * a + b, -2.0, 2.0);
         B(a, b) = sym_real_in("B", 3 * a + b, -2.0, 2.0);
      }
   }
   double sb = sym_real_in("sb", 0, -2.0, 2.0);
   for (int i = 0; i < E.n; i += stride)
   {
      double e = 0.0;
      for (int k = 0; k < E.dim; ++k) { e += 2 * A(k, di) * E.e->getQ(k, i, i); }
      sym_assert_eq(2 * E.e->getSymEntry(di, i, A), e, "boundary operator in physical space");
      sym_assert_eq(E.e->getQEntry(di, i, i, A, A), E.e->getSymEntry(di, i, A), "diagonal entry of the physical operator");
      for (int j = 0; j < E.n; j += stride)
      {
         double s = E.e->getSkewEntry(di, i, j, A, B);
         double ref = 0.0;
         for (int k = 0; k < E.dim; ++k) { ref += A(k, di) * E.e->getQ(k, i, j) - B(k, di) * E.e->getQ(k, j, i); }
         sym_assert_eq(s, ref, "physical skew operator");
         sym_assert_eq(s, -E.e->getSkewEntry(di, j, i, B, A), "the physical operator is skew");
         if (i != j) { sym_assert_eq(E.e->getQEntry(di, i, j, A, B), 0.5 * s, "off-diagonal entry of the physical operator"); }
         Ab = 0.25;
         Bb = 0.5;
         E.e->getSkewEntryRevDiff(di, i, j, sb, Ab, Bb);
         for (int a = 0; a < E.dim; ++a)
         {
            for (int b = 0; b < E.dim; ++b)
            {
               sym_assert_eq(Ab(a, b), 0.25 + sb * sym_diff(s, A(a, b)), "reverse derivative w.r.t. the first Jacobian");
               sym_assert_eq(Bb(a, b), 0.5 + sb * sym_diff(s, B(a, b)), "reverse derivative w.r.t. the second Jacobian");
            }
         }
      }
   }
   sym_reach("done");
}
extern "C" void h_phys_seg() { phys(sym_choice("degree", 0, 0, 4), 1); }
extern "C" void h_phys_tri() { int p = sym_choice("degree", 0, 0, 4); phys(10 + p, p < 3 ? 1 : 3); }
extern "C" void h_phys_tet() { phys(20 + sym_choice("degree", 0, 0, 1), 1); }

// finite element collections: the values two elements give to the dofs of a
// shared edge agree for every function
static double tOnEdge(const El &E, int e, int node)
{
   static const double V[3][2] = {{0, 0}, {1, 0}, {0, 1}};
   const double *a = V[e], *b = V[(e + 1) % 3], *x = E.pt(node);
   double t = (x[0] - a[0]) * (b[0] - a[0]) + (x[1] - a[1]) * (b[1] - a[1]);
   t /= (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]);
   NEAR(a[0] + t * (b[0] - a[0]), x[0], "dofs of an edge are nodes on that edge");
   NEAR(a[1] + t * (b[1] - a[1]), x[1], "dofs of an edge are nodes on that edge");
   return t;
}
static double fun(double t) { double r = 0.0; for (int i = 6; i >= 0; --i) { r = r * t + sym_real_in("c", i, -1.0, 1.0); } return r; }
extern "C" void h_edges()
{
   const int p = sym_choice("degree", 0, 0, 4);
   SBPCollection C(p, 2);
   El E(10 + p);
   const FiniteElement *fe = C.FiniteElementForGeometry(Geometry::TRIANGLE);
   const int ne = C.DofForGeometry(Geometry::SEGMENT);
   sym_assert(fe->GetDof() == E.n && fe->GetOrder() == p && fe->GetGeomType() == Geometry::TRIANGLE, "the collection's triangle");
   sym_assert(C.DofForGeometry(Geometry::POINT) == 1 && 3 + 3 * ne + C.DofForGeometry(Geometry::TRIANGLE) == E.n, "dofs of the triangle");
   sym_assert(C.FiniteElementForGeometry(Geometry::SEGMENT)->GetDof() == 2 + ne, "dofs of the segment");
   sym_assert(C.GetContType() == FiniteElementCollection::CONTINUOUS, "continuous");
   for (int v = 0; v < 3; ++v)
   {
      sym_assert(E.pt(v)[0] == (v == 1) && E.pt(v)[1] == (v == 2), "dofs of a vertex are nodes at that vertex");
   }
   const int *fwd = C.DofOrderForOrientation(Geometry::SEGMENT, 1), *rev = C.DofOrderForOrientation(Geometry::SEGMENT, -1);
   std::vector<double> g(ne);
   for (int e = 0; e < 3; ++e)
   {
      for (int o = 0; o < 2; ++o)
      {
         for (int j = 0; j < ne; ++j)
         {
            double t = tOnEdge(E, e, 3 + e * ne + j);
            int k = o ? rev[j] : fwd[j];
            sym_assert(k >= 0 && k < ne, "dof order of an edge");
            double v = fun(o ? 1.0 - t : t);
            if (e == 0 && o == 0) { g[k] = v; }
            else { NEAR(g[k], v, "the values of a function at the dofs of a shared edge agree"); }
         }
      }
   }
   for (int i = 3 + 3 * ne; i < E.n; ++i)
   {
      const double *x = E.pt(i);
      sym_assert(x[0] > 1e-6 && x[1] > 1e-6 && x[0] + x[1] < 1 - 1e-6, "the remaining dofs are interior");
   }
   sym_reach("done");
}
static void segment_order(int p)
{
   SBPCollection C(p, 2);
   El E(10 + p), S(p);
   for (int j = 0; j < p; ++j)
   {
      NEAR(fun(tOnEdge(E, 0, 3 + j)), fun(S.pt(2 + j)[0]), "the segment has its nodes in the order of the triangle's edges");
   }
   sym_reach("done");
}
extern "C" void h_segment_order() { segment_order(sym_choice("degree", 0, 0, 2)); }
extern "C" void h_segment_order_3() { segment_order(3); }
extern "C" void h_segment_order_4() { segment_order(4); }
extern "C" void h_edges_3d()
{
   const int p = sym_choice("degree", 0, 0, 1);
   SBPCollection C(p, 3);
   El E(20 + p);
   static const double V[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
   static const int ed[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
   static const int fa[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
   const int ne = C.DofForGeometry(Geometry::SEGMENT), nf = C.DofForGeometry(Geometry::TRIANGLE);
   sym_assert(4 + 6 * ne + 4 * nf + C.DofForGeometry(Geometry::TETRAHEDRON) == E.n, "dofs of the tetrahedron");
   sym_assert(C.FiniteElementForGeometry(Geometry::TETRAHEDRON)->GetDof() == E.n, "the collection's tetrahedron");
   sym_assert(C.FiniteElementForGeometry(Geometry::TRIANGLE)->GetDof() == 3 + 3 * ne + nf, "dofs of the face");
   double c[3];
   for (int d = 0; d < 3; ++d) { c[d] = sym_real_in("c", d, -1.0, 1.0); }
   auto lin = [&](const double *x) { return c[0] * x[0] + c[1] * x[1] + c[2] * x[2]; };
   auto check = [&](int node, const int *v, int n) {
      double s = 0.0;
      for (int i = 0; i < n; ++i) { s += lin(V[v[i]]) / n; }
      NEAR(lin(E.pt(node)), s, "dofs of a vertex, edge or face are nodes at its centre");
   };
   for (int i = 0; i < 4; ++i) { check(i, &i, 1); }
   for (int e = 0; e < 6 && ne; ++e) { check(4 + e, ed[e], 2); }
   for (int f = 0; f < 4 && nf; ++f) { check(4 + 6 * ne + f, fa[f], 3); }
   if (nf)
   {
      for (int o = 0; o < 6; ++o) { sym_assert(C.DofOrderForOrientation(Geometry::TRIANGLE, o)[0] == 0, "dof order of a face"); }
   }
   sym_reach("done");
}
extern "C" void h_dsbp()
{
   const int p = sym_choice("degree", 0, 0, 4);
   DSBPCollection C(p, 2);
   El E(10 + p);
   const SBPFiniteElement *fe = dynamic_cast<const SBPFiniteElement *>(C.FiniteElementForGeometry(Geometry::TRIANGLE));
   sym_assert(C.DofForGeometry(Geometry::POINT) == 0 && C.DofForGeometry(Geometry::SEGMENT) == 0 && C.DofForGeometry(Geometry::TRIANGLE) == E.n, "all dofs belong to the triangle");
   sym_assert(C.GetContType() == FiniteElementCollection::DISCONTINUOUS, "discontinuous");
   sym_assert(fe && fe->GetDof() == E.n && fe->GetOrder() == p, "the collection's triangle");
   double a = sym_real_in("a", 0, -1.0, 1.0), b = sym_real_in("b", 0, -1.0, 1.0);
   for (int i = 0; i < E.n; ++i)
   {
      const IntegrationPoint &ip = fe->GetNodes().IntPoint(i);
      NEAR(a * ip.x + b * ip.y, a * E.pt(i)[0] + b * E.pt(i)[1], "nodes of the discontinuous triangle");
   }
   // the trace element of the triangle's edges has the nodes of its first edge
   const FiniteElement *tr = C.FiniteElementForGeometry(Geometry::SEGMENT);
   sym_assert(tr && tr->GetDof() == p + 2, "trace element");
   sym_reach("done");
}
