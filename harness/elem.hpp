// Elements, transformations, fields and coefficients for the integrator harnesses.
#pragma once
#include <cmath>
#include "mfem.hpp"
#include "sym.h"
namespace el
{
using namespace mfem;
ElementTransformation *transformation(int i);
FaceElementTransformations *boundary_face();
const IntegrationRule &rule(int geom, int order);
extern int npoints;   // of the rules

// bilinear element on the unit square, nodes counter-clockwise
struct Quad : FiniteElement
{
   explicit Quad(int map = VALUE, int o = 1) : FiniteElement(2, Geometry::SQUARE, 4, o, FunctionSpace::Qk) { map_type = map; deriv_type = GRAD; deriv_range_type = VECTOR; deriv_map_type = H_CURL; }
   void CalcShape(const IntegrationPoint &ip, Vector &s) const override
   {
      const double x = ip.x, y = ip.y;
      s(0) = (1 - x) * (1 - y); s(1) = x * (1 - y); s(2) = x * y; s(3) = (1 - x) * y;
   }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &d) const override
   {
      const double x = ip.x, y = ip.y;
      d(0, 0) = -(1 - y); d(0, 1) = -(1 - x);
      d(1, 0) = 1 - y; d(1, 1) = -x;
      d(2, 0) = y; d(2, 1) = x;
      d(3, 0) = -y; d(3, 1) = 1 - x;
   }
};
struct Seg : FiniteElement
{
   explicit Seg(int o = 1) : FiniteElement(1, Geometry::SEGMENT, 2, o) { map_type = VALUE; deriv_type = GRAD; deriv_range_type = VECTOR; deriv_map_type = H_CURL; }
   void CalcShape(const IntegrationPoint &ip, Vector &s) const override { s(0) = 1 - ip.x; s(1) = ip.x; }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &d) const override { d(0, 0) = -1; d(1, 0) = 1; }
};
// linear triangle: the face of a tetrahedron
struct Tri : FiniteElement
{
   explicit Tri(int o = 1) : FiniteElement(2, Geometry::TRIANGLE, 3, o) { map_type = VALUE; deriv_type = GRAD; deriv_range_type = VECTOR; deriv_map_type = H_CURL; }
   void CalcShape(const IntegrationPoint &ip, Vector &s) const override { s(0) = 1 - ip.x - ip.y; s(1) = ip.x; s(2) = ip.y; }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &d) const override { d = 0.0; d(0, 0) = d(0, 1) = -1; d(1, 0) = d(2, 1) = 1; }
};
struct Tet : FiniteElement
{
   explicit Tet(int map = VALUE, int o = 1) : FiniteElement(3, Geometry::TETRAHEDRON, 4, o) { map_type = map; deriv_type = GRAD; deriv_range_type = VECTOR; deriv_map_type = H_CURL; }
   void CalcShape(const IntegrationPoint &ip, Vector &s) const override { s(0) = 1 - ip.x - ip.y - ip.z; s(1) = ip.x; s(2) = ip.y; s(3) = ip.z; }
   void CalcDShape(const IntegrationPoint &ip, DenseMatrix &d) const override { d = 0.0; for (int i = 0; i < 3; ++i) { d(0, i) = -1; d(i + 1, i) = 1; } }
};
// lowest order edge element on the tetrahedron
struct Edge : FiniteElement
{
   Edge() : FiniteElement(3, Geometry::TETRAHEDRON, 6, 1) { range_type = VECTOR; map_type = H_CURL; deriv_type = CURL; deriv_range_type = VECTOR; deriv_map_type = H_DIV; vdim = cdim = 3; }
   static const int *e(int k) { static const int t[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}; return t[k]; }
   static double g(int i, int d) { return i == 0 ? -1.0 : i - 1 == d ? 1.0 : 0.0; }
   void CalcShape(const IntegrationPoint &, Vector &) const override { mfem_error("edge element: CalcShape"); }
   void CalcDShape(const IntegrationPoint &, DenseMatrix &) const override { mfem_error("edge element: CalcDShape"); }
   void CalcVShape(const IntegrationPoint &ip, DenseMatrix &s) const override
   {
      const double l[4] = {1 - ip.x - ip.y - ip.z, ip.x, ip.y, ip.z};
      for (int k = 0; k < 6; ++k) { for (int d = 0; d < 3; ++d) { s(k, d) = l[e(k)[0]] * g(e(k)[1], d) - l[e(k)[1]] * g(e(k)[0], d); } }
   }
   void CalcVShape(ElementTransformation &T, DenseMatrix &s) const override
   {
      DenseMatrix r(6, 3);
      CalcVShape(T.GetIntPoint(), r);
      mfem::Mult(r, T.InverseJacobian(), s);
   }
   void CalcCurlShape(const IntegrationPoint &, DenseMatrix &c) const override
   {
      for (int k = 0; k < 6; ++k)
      {
         const int a = e(k)[0], b = e(k)[1];
         for (int d = 0; d < 3; ++d) { const int p = (d + 1) % 3, q = (d + 2) % 3; c(k, d) = 2 * (g(a, p) * g(b, q) - g(a, q) * g(b, p)); }
      }
   }
};
// lowest order face element on the tetrahedron
struct FaceElement : FiniteElement
{
   FaceElement() : FiniteElement(3, Geometry::TETRAHEDRON, 4, 1) { range_type = VECTOR; map_type = H_DIV; deriv_type = DIV; deriv_range_type = SCALAR; deriv_map_type = INTEGRAL; vdim = 3; }
   void CalcShape(const IntegrationPoint &, Vector &) const override { mfem_error("face element: CalcShape"); }
   void CalcDShape(const IntegrationPoint &, DenseMatrix &) const override { mfem_error("face element: CalcDShape"); }
   void CalcVShape(const IntegrationPoint &ip, DenseMatrix &s) const override
   {
      const double x[3] = {ip.x, ip.y, ip.z};
      for (int k = 0; k < 4; ++k) { for (int d = 0; d < 3; ++d) { s(k, d) = 2 * (x[d] - (k > 0 && k - 1 == d ? 1.0 : 0.0)); } }
   }
   void CalcVShape(ElementTransformation &T, DenseMatrix &s) const override
   {
      DenseMatrix r(4, 3);
      CalcVShape(T.GetIntPoint(), r);
      MultABt(r, T.Jacobian(), s);
      s *= 1.0 / T.Weight();
   }
};

struct Space : FiniteElementSpace
{
   const FiniteElement *fe;
   Space(const FiniteElement &f, int vd = 1) : fe(&f)
   {
      static char m[sizeof(Mesh)] __attribute__((aligned(64)));
      vdim = vd;
      mesh = reinterpret_cast<Mesh *>(m);
   }
   const FiniteElement *GetFE(int) const override { return fe; }
};
struct Field : GridFunction
{
   Field(const FiniteElement &f, double *d, int n, int vd = 1) { fes = new Space(f, vd); NewDataAndSize(d, n); }
};
// n unknowns name[0..n) in [lo, hi]
inline double *unknowns(const char *name, int n, double lo, double hi)
{
   double *r = new double[n];
   for (int i = 0; i < n; ++i) { r[i] = sym_real_in(name, i, lo, hi); }
   return r;
}
inline double *fixed(int n, double first = 0.75, double step = -0.375)
{
   double *r = new double[n];
   for (int i = 0; i < n; ++i) { r[i] = first + step * i + (i % 3) * 0.25; }
   return r;
}

// the element: its nodes are fixed but for one coordinate X (when moved)
extern IsoparametricTransformation *T1;
struct Element
{
   IsoparametricTransformation T;
   FiniteElement *mesh_fe;
   int dim, nn, node = 0, d = 0;
   double X = 0.0;
   Element(int dim_, bool moved) : dim(dim_)
   {
      static const double q[4][2] = {{0, 0}, {1.25, 0.125}, {1, 1.125}, {-0.125, 0.875}};
      static const double t[4][3] = {{0, 0, 0}, {1.25, 0.125, -0.25}, {0.25, 1, 0.125}, {-0.125, 0.25, 0.875}};
      mesh_fe = dim == 2 ? (FiniteElement *)new Quad : (FiniteElement *)new Tet;
      nn = 4;
      DenseMatrix P(dim, nn);
      for (int j = 0; j < nn; ++j) { for (int i = 0; i < dim; ++i) { P(i, j) = dim == 2 ? q[j][i] : t[j][i]; } }
      if (moved)
      {
         const int k = sym_choice("coordinate", 0, 0, dim * nn - 1);
         node = k / dim; d = k % dim;
         X = sym_real_in("X", 0, -0.125, 0.125);
         P(d, node) += X;
      }
      T.SetFE(mesh_fe);
      T.SetPointMat(P);
      T.Attribute = 1;
      T.ElementNo = 0;
      T.ElementType = ElementTransformation::ELEMENT;
      T.mesh = nullptr;
      T1 = &T;
   }
};
// coefficients that depend on position
struct Poly : Coefficient   // a + b x0 + c x1 x1
{
   double a, b, c;
   Poly(double a_ = 1.5, double b_ = 0.25, double c_ = 0.5) : a(a_), b(b_), c(c_) { }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double xb[3];
      Vector x(xb, T.GetSpaceDim());
      T.Transform(ip, x);
      return a + b * x(0) + c * x(1) * x(1);
   }
   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override
   {
      double xb[3], x_bar[3] = {0, 0, 0};
      Vector x(xb, T.GetSpaceDim()), b_(x_bar, T.GetSpaceDim());
      T.Transform(ip, x);
      b_(0) = b * Q_bar;
      b_(1) = 2 * c * x(1) * Q_bar;
      Vector s(PointMat_bar.Width());
      dynamic_cast<IsoparametricTransformation &>(T).GetFE()->CalcShape(ip, s);
      AddMultVWt(b_, s, PointMat_bar);
   }
};
struct VectorPoly : VectorCoefficient   // v_i = a_i + b_i x_{i+1} + c_i x_i x_0
{
   double a[3] = {0.75, -0.5, 1.25}, b[3] = {0.25, 1.0, -0.5}, c[3] = {0.5, 0.25, 0.125};
   explicit VectorPoly(int d) : VectorCoefficient(d) { }
   using VectorCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double xb[3];
      const int n = T.GetSpaceDim();
      Vector x(xb, n);
      T.Transform(ip, x);
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v(i) = a[i] + b[i] * x((i + 1) % n) + c[i] * x(i % n) * x(0); }
   }
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override
   {
      double xb[3], x_bar[3] = {0, 0, 0};
      const int n = T.GetSpaceDim();
      Vector x(xb, n), b_(x_bar, n);
      T.Transform(ip, x);
      for (int i = 0; i < vdim; ++i)
      {
         b_((i + 1) % n) += b[i] * V_bar(i);
         b_(i % n) += c[i] * x(0) * V_bar(i);
         b_(0) += c[i] * x(i % n) * V_bar(i);
      }
      Vector s(PointMat_bar.Width());
      dynamic_cast<IsoparametricTransformation &>(T).GetFE()->CalcShape(ip, s);
      AddMultVWt(b_, s, PointMat_bar);
   }
};
}  // namespace el
namespace el
{
IsoparametricTransformation *T1 = nullptr;
int npoints = 2;
ElementTransformation *transformation(int) { return T1; }
FaceElementTransformations *boundary_face() { return nullptr; }
const IntegrationRule &rule(int geom, int order)
{
   static IntegrationRule *r[3][8][24];
   IntegrationRule *&p = r[npoints][geom][order];
   if (p == nullptr)
   {
      p = new IntegrationRule(npoints);
      for (int k = 0; k < npoints; ++k)
      {
         IntegrationPoint &q = p->IntPoint(k);
         q.x = 0.25 + 0.125 * k;
         q.y = geom == Geometry::SEGMENT ? 0.0 : 0.375 - 0.25 * k;
         q.z = geom == Geometry::TETRAHEDRON ? 0.125 + 0.25 * k : 0.0;
         q.weight = 0.5 + 0.25 * k + order / 64.0;
      }
      p->SetOrder(order);
   }
   return *p;
}
}  // namespace el
// Mesh and space look-ups, on both sides: one element per number, degrees of freedom
// numbered element by element, and rules that depend on the order asked for.
namespace mfem
{
ElementTransformation *Mesh::GetElementTransformation(int i) { return el::transformation(i); }
FaceElementTransformations *Mesh::GetBdrFaceTransformations(int i) { return el::boundary_face(); }
static DofTransformation *number(const FiniteElementSpace &s, const FiniteElement *fe, int i, Array<int> &vdofs)
{
   const int n = fe->GetDof() * s.GetVDim();
   vdofs.SetSize(n);
   for (int k = 0; k < n; ++k) { vdofs[k] = i * n + k; }
   return nullptr;
}
DofTransformation *FiniteElementSpace::GetElementVDofs(int i, Array<int> &vdofs) const { return number(*this, GetFE(i), i, vdofs); }
DofTransformation *FiniteElementSpace::GetElementDofs(int i, Array<int> &dofs) const { return number(*this, GetFE(i), i, dofs); }
DofTransformation *FiniteElementSpace::GetBdrElementVDofs(int i, Array<int> &vdofs) const { return number(*this, GetFE(0), 0, vdofs); }
void FiniteElementSpace::GetFaceVDofs(int i, Array<int> &vdofs) const { number(*this, GetFE(0), 0, vdofs); }
const IntegrationRule &IntegrationRules::Get(int geom, int order) { return el::rule(geom, order); }
}
