// Derivatives of element quantities against the exact derivative of what they compute.
#pragma once
#include "elem.hpp"
#include "coefficient.hpp"
using namespace mfem;
using namespace miso;
typedef const char *L;
// the element vector is the gradient of the energy
static void state(NonlinearFormIntegrator &n, const FiniteElement &fe, el::Element &e, double *u, int nu)
{
   Vector U(u, nu), g;
   const double J = n.GetElementEnergy(fe, e.T, U);
   sym_observe("energy", J);
   n.AssembleElementVector(fe, e.T, U, g);
   sym_assert(g.Size() == nu, "one derivative for each unknown");
   for (int i = 0; i < nu; ++i) { sym_assert_eq(g(i), sym_diff(J, u[i]), "derivative of the functional with respect to the state"); }
}
static void mesh(double J, LinearFormIntegrator &s, el::Element &e, L l = "derivative of the functional with respect to the nodes")
{
   Vector m;
   s.AssembleRHSElementVect(*e.mesh_fe, e.T, m);
   sym_assert(m.Size() == e.dim * e.nn, "one derivative for each node coordinate");
   sym_observe("derivative", m(e.d * e.nn + e.node));
   sym_assert_eq(m(e.d * e.nn + e.node), sym_diff(J, e.X), l);
}
template <class I, class M>
static void functional(I &n, const FiniteElement &fe, int dim, double lo, double hi, int pts = 2)
{
   const bool moved = sym_choice("moved", 0, 0, 1);
   const int nu = fe.GetDof();
   el::npoints = pts;
   if (!moved)
   {
      el::Element e(dim, false);
      state(n, fe, e, el::unknowns("u", nu, lo, hi), nu);
      sym_reach("state");
      return;
   }
   el::Element e(dim, true);
   double *u = el::unknowns("u", nu, lo, hi);
   auto &f = *new el::Field(fe, u, nu);
   Vector U(u, nu);
   const double J = n.GetElementEnergy(fe, e.T, U);
   sym_observe("energy", J);
   M s(f, n);
   mesh(J, s, e);
   sym_reach("mesh");
}
static double dot3(const double *a, const double *b, int n) { double s = 0.0; for (int i = 0; i < n; ++i) { s += a[i] * b[i]; } return s; }
struct Work
{
   el::Element e;
   double *u, *p;
   Work(int dim, int nu, int np) : e(dim, true), u(el::unknowns("u", nu, -2, 2)), p(el::unknowns("psi", np, -2, 2)) { }
};
template <class I, class S>
static void load(I &n, S &s, Work &w, const FiniteElement &fe)
{
   Vector r;
   n.AssembleRHSElementVect(fe, w.e.T, r);
   double J = 0.0;
   for (int k = 0; k < r.Size(); ++k) { J += r(k) * w.p[k]; }
   mesh(J, s, w.e, "derivative of the load with respect to the nodes");
   sym_reach("done");
}
static void nodes(double J, NonlinearFormIntegrator &s, el::Element &e, L l)
{
   Vector m, none;
   s.AssembleElementVector(*e.mesh_fe, e.T, none, m);
   sym_assert(m.Size() == e.dim * e.nn, "one derivative for each node coordinate");
   sym_observe("derivative", m(e.d * e.nn + e.node));
   sym_assert_eq(m(e.d * e.nn + e.node), sym_diff(J, e.X), l);
}

// the gradient of an element vector
static void gradient(NonlinearFormIntegrator &n, const FiniteElement &fe, ElementTransformation &T, double *u, int nu)
{
   Vector U(u, nu), r;
   DenseMatrix K;
   n.AssembleElementVector(fe, T, U, r);
   n.AssembleElementGrad(fe, T, U, K);
   sym_assert(r.Size() == nu && K.Height() == nu && K.Width() == nu, "sizes of the element vector and matrix");
   for (int i = 0; i < nu; ++i)
   {
      sym_observe("vector", r(i));
      for (int j = 0; j < nu; ++j) { sym_assert_eq(K(i, j), sym_diff(r(i), u[j]), "element matrix is the derivative of the element vector"); }
   }
}
// psi^T r and its derivative with respect to the nodes
static void residual_mesh(NonlinearFormIntegrator &n, LinearFormIntegrator &s, const FiniteElement &fe, Work &w, L l = "derivative of the residual with respect to the nodes")
{
   const int nu = fe.GetDof();
   Vector U(w.u, nu), r;
   n.AssembleElementVector(fe, w.e.T, U, r);
   double J = 0.0;
   for (int k = 0; k < nu; ++k) { J += r(k) * w.p[k]; }
   sym_observe("residual", J);
   mesh(J, s, w.e, l);
}
// psi^T f of a load
static double weighted(LinearFormIntegrator &n, const FiniteElement &fe, ElementTransformation &T, const double *p)
{
   Vector r;
   n.AssembleRHSElementVect(fe, T, r);
   double J = 0.0;
   for (int k = 0; k < r.Size(); ++k) { J += r(k) * p[k]; }
   sym_observe("load", J);
   return J;
}
// derivative of J with respect to the degrees of freedom of a field
static void field(double J, LinearFormIntegrator &s, const FiniteElement &fe, ElementTransformation &T, double *u, int nu, L l)
{
   Vector g;
   s.AssembleRHSElementVect(fe, T, g);
   sym_assert(g.Size() == nu, "one derivative for each degree of freedom of the field");
   for (int i = 0; i < nu; ++i) { sym_assert_eq(g(i), sym_diff(J, u[i]), l); }
}
// derivative of J with respect to a parameter
static void parameter(double J, NonlinearFormIntegrator &s, const FiniteElement &fe, ElementTransformation &T, double p, L l)
{
   Vector none;
   const double d = s.GetElementEnergy(fe, T, none);
   sym_assert_eq(d, sym_diff(J, p), l);
}
namespace el
{
static void push(const Vector &x_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   Vector s(PointMat_bar.Width());
   dynamic_cast<IsoparametricTransformation &>(T).GetFE()->CalcShape(ip, s);
   AddMultVWt(x_bar, s, PointMat_bar);
}
// a + b s^2 + e s + c x0 s + d x1^2
struct StatePoly : StateCoefficient
{
   double a, b, c, d, e = 0.75;
   StatePoly(bool position = false, double a_ = 1.5, double b_ = 0.25) : a(a_), b(b_), c(position ? 0.5 : 0.0), d(position ? 0.125 : 0.0) { }
   static Vector at(ElementTransformation &T, const IntegrationPoint &ip) { Vector x(T.GetSpaceDim()); T.Transform(ip, x); return x; }
   using StateCoefficient::Eval;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip, double s) override { Vector x = at(T, ip); return a + b * s * s + e * s + c * x(0) * s + d * x(1) * x(1); }
   double EvalStateDeriv(ElementTransformation &T, const IntegrationPoint &ip, double s) override { return 2 * b * s + e + c * at(T, ip)(0); }
   double EvalState2ndDeriv(ElementTransformation &, const IntegrationPoint &, double) override { return 2 * b; }
   using StateCoefficient::EvalRevDiff;
   void EvalRevDiff(double q, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override
   {
      Vector x = at(T, ip), x_bar(x.Size());
      x_bar = 0.0;
      x_bar(0) = q * c * s;
      x_bar(1) = q * 2 * d * x(1);
      push(x_bar, T, ip, P);
   }
};
// the field has a flux at every point
static void flux(const FiniteElement &fe, ElementTransformation &T, double *u, int geom)
{
   const IntegrationRule &ir = rule(geom, 0);
   Vector U(u, fe.GetDof());
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      T.SetIntPoint(&ir.IntPoint(i));
      const int d = T.GetSpaceDim();
      DenseMatrix s(fe.GetDof(), d), t(fe.GetDof(), d);
      Vector b(d);
      if (fe.GetRangeType() == FiniteElement::VECTOR) { fe.CalcCurlShape(ir.IntPoint(i), s); MultABt(s, T.Jacobian(), t); }
      else { fe.CalcDShape(ir.IntPoint(i), s); mfem::Mult(s, T.AdjugateJacobian(), t); }
      t.MultTranspose(U, b);
      double q = 0.0;
      for (int k = 0; k < d; ++k) { q += b(k) * b(k); }
      sym_assume(q > 1e-6);
      sym_assume(std::sqrt(q) > 1e-4 && std::sqrt(q) / T.Weight() > 1e-5);
   }
}
// v_i = a_i + b_i x_{i+1} s + c_i s^2
struct VectorStatePoly : VectorStateCoefficient
{
   double a[3] = {0.75, -0.5, 1.25}, b[3] = {0.25, 1.0, -0.5}, c[3] = {0.5, 0.25, 0.125};
   explicit VectorStatePoly(int d) : VectorStateCoefficient(d) { }
   using VectorStateCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      Vector x = StatePoly::at(T, ip);
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v(i) = a[i] + b[i] * x((i + 1) % x.Size()) * s + c[i] * s * s; }
   }
   void EvalStateDeriv(Vector &v, ElementTransformation &T, const IntegrationPoint &ip, double s) override
   {
      Vector x = StatePoly::at(T, ip);
      v.SetSize(vdim);
      for (int i = 0; i < vdim; ++i) { v(i) = b[i] * x((i + 1) % x.Size()) + 2 * c[i] * s; }
   }
   using VectorStateCoefficient::EvalRevDiff;
   void EvalRevDiff(const Vector &v_bar, ElementTransformation &T, const IntegrationPoint &ip, double s, DenseMatrix &P) override
   {
      Vector x_bar(T.GetSpaceDim());
      x_bar = 0.0;
      for (int i = 0; i < vdim; ++i) { x_bar((i + 1) % x_bar.Size()) += b[i] * s * v_bar(i); }
      push(x_bar, T, ip, P);
   }
};
}  // namespace el
