// The element kernels of the flow solvers, for fluxes that are polynomials (sym_diff).
#include <cmath>
#include <vector>
#include "adept.h"
#include "mfem.hpp"
#include "coefficient.hpp"
#include "sbp_fe.hpp"
#include "utils.hpp"
#include "inviscid_integ.hpp"
#include "viscous_integ.hpp"
#include "mms_integ.hpp"
#include "mesh_sens_integ.hpp"
#include "euler_integ.hpp"
#include "elem.hpp"
using namespace mfem;
using namespace miso;
typedef const char *L;
static const double TOL = 1e-9;
static const int TRI[5] = {3, 7, 12, 18, 27};
static SBPFiniteElement *sbp(int dim, int p)
{
   if (dim == 1) { return new SBPSegmentElement(p); }
   if (dim == 2) { return new SBPTriangleElement(p, TRI[p]); }
   return new SBPTetrahedronElement(p, p ? 14 : 4);
}
struct Coll : FiniteElementCollection
{
   const FiniteElement *e[3];
   explicit Coll(int p) : FiniteElementCollection() { e[0] = new PointFiniteElement; e[1] = sbp(1, p); e[2] = sbp(2, p); }
   const FiniteElement *FiniteElementForGeometry(Geometry::Type g) const override { return g == Geometry::POINT ? e[0] : g == Geometry::SEGMENT ? e[1] : g == Geometry::TRIANGLE ? e[2] : nullptr; }
   int DofForGeometry(Geometry::Type) const override { return 0; }
   const int *DofOrderForOrientation(Geometry::Type, int) const override { return nullptr; }
   const char *Name() const override { return "faces"; }
   int GetContType() const override { return DISCONTINUOUS; }
};
// shape functions that are monomials, so that the point matrix holds the map's coefficients
struct Powers : FiniteElement
{
   explicit Powers(int d) : FiniteElement(d, d == 1 ? Geometry::SEGMENT : d == 2 ? Geometry::TRIANGLE : Geometry::TETRAHEDRON, 1 + 2 * d, 2) { }
   static double c(const IntegrationPoint &q, int i) { return i == 0 ? q.x : i == 1 ? q.y : q.z; }
   void CalcShape(const IntegrationPoint &q, Vector &s) const override
   {
      s(0) = 1.0;
      for (int i = 0; i < dim; ++i) { s(1 + i) = c(q, i); s(1 + dim + i) = c(q, i) * c(q, i); }
   }
   void CalcDShape(const IntegrationPoint &q, DenseMatrix &d) const override
   {
      d = 0.0;
      for (int i = 0; i < dim; ++i) { d(1 + i, i) = 1.0; d(1 + dim + i, i) = 2.0 * c(q, i); }
   }
};
static void set(IsoparametricTransformation &T, int d, const DenseMatrix &P, int kind)
{
   T.SetFE(new Powers(d));
   T.SetPointMat(P);
   T.Attribute = 1;
   T.ElementNo = 0;
   T.ElementType = kind;
   T.mesh = nullptr;
}
// an SBP element under a map x_i = P_i0 + sum_j P_ij s_j + Q_ij s_j^2
struct El
{
   int d, n;
   SBPFiniteElement *e;
   DenseMatrix P;
   IsoparametricTransformation T;
   std::vector<DenseMatrix> adj;   // at the nodes
   std::vector<double> det;
   std::vector<Vector> x;
   double X = 0.0;
   int row = 0, col = 0;
   // the coefficient of the map that is varied
   void vary(int columns)
   {
      const int k = sym_choice("coefficient", 0, 0, d * columns - 1);
      row = k / columns; col = k % columns;
      X = sym_real_in("X", 0, -0.0625, 0.0625);
      P(row, col) += X;
      geometry();
   }
   El(int d_, int p, bool curved, bool fixed = false, double shift = 0.0) : d(d_), e(sbp(d_, p)), P(d_, 1 + 2 * d_)
   {
      n = e->GetDof();
      P = 0.0;
      for (int i = 0; i < d; ++i)
      {
         P(i, 0) = 0.5 * i - 0.25 + shift;
         for (int j = 0; j < d; ++j) { P(i, 1 + j) = i == j ? 1.25 + 0.125 * i : 0.25 - 0.125 * i - 0.0625 * j; }
         if (curved) { P(i, 1 + d + (i + 1) % d) = 0.0625 + 0.03125 * i; }
         if (!fixed)
         {
            P(i, 1 + i) = sym_real_in("a", i, 1.0, 2.0);
            P(i, 1 + (i + 1) % d) += d == 1 ? 0.0 : sym_real_in("b", i, -0.25, 0.25);
         }
      }
      geometry();
   }
   void geometry()
   {
      set(T, d, P, ElementTransformation::ELEMENT);
      adj.clear(); det.clear(); x.clear();
      for (int k = 0; k < n; ++k)
      {
         T.SetIntPoint(&e->GetNodes().IntPoint(k));
         DenseMatrix a(d);
         CalcAdjugate(T.Jacobian(), a);
         adj.push_back(a);
         det.push_back(T.Weight());
         Vector y(d);
         T.Transform(e->GetNodes().IntPoint(k), y);
         x.push_back(y);
      }
   }
   double H(int i) const { return e->GetNodes().IntPoint(i).weight; }
   // d/dx_d as an operator: sum_k [adj(k,d) Q_k]
   double skew(int di, int i, int j) const
   {
      double s = 0.0;
      for (int k = 0; k < d; ++k) { s += adj[i](k, di) * e->getQ(k, i, j) - adj[j](k, di) * e->getQ(k, j, i); }
      return s;
   }
   double Q(int di, int i, int j) const
   {
      if (i != j) { return 0.5 * skew(di, i, j); }
      double s = 0.0;
      for (int k = 0; k < d; ++k) { s += adj[i](k, di) * e->getQ(k, i, i); }
      return s;
   }
};
// a face of the reference simplex: vertices v[0..d)
struct Face
{
   struct Trans : FaceElementTransformations { void mask_(int m) { SetConfigurationMask(m); } } F;
   int nf, d;
   const FiniteElement *fe;
   std::vector<int> at, at2;      // element nodes of the face nodes
   std::vector<Vector> nrm;
   std::vector<double> w;
   static double vertex(int v, int i) { return v == i + 1 ? 1.0 : 0.0; }
   static void local(IntegrationPointTransformation &loc, int d, const int *v)
   {
      DenseMatrix R(d, 1 + 2 * (d - 1));
      R = 0.0;
      for (int i = 0; i < d; ++i)
      {
         R(i, 0) = vertex(v[0], i);
         for (int k = 1; k < d; ++k) { R(i, k) = vertex(v[k], i) - vertex(v[0], i); }
      }
      set(loc.Transf, d - 1, R, ElementTransformation::BDR_ELEMENT);
   }
   static int find(const SBPFiniteElement &e, IntegrationPointTransformation &loc, const IntegrationPoint &ip)
   {
      IntegrationPoint q;
      loc.Transform(ip, q);
      int r = -1;
      for (int j = 0; j < e.GetDof(); ++j)
      {
         const IntegrationPoint &z = e.GetNodes().IntPoint(j);
         double s = std::fabs(z.x - q.x);
         if (e.GetDim() > 1) { s += std::fabs(z.y - q.y); }
         if (e.GetDim() > 2) { s += std::fabs(z.z - q.z); }
         if (s < 1e-11) { r = j; }
      }
      sym_assert(r >= 0, "face nodes are nodes of the element");
      return r;
   }
   Face(El &E, const Coll &c, const int *v, El *E2 = nullptr, const int *v2 = nullptr) : d(E.d)
   {
      fe = c.e[d - 1];
      nf = fe->GetDof();
      DenseMatrix R(d, 1 + 2 * (d - 1));
      R = 0.0;
      const double *z = nullptr; (void)z;
      for (int i = 0; i < d; ++i)
      {
         R(i, 0) = E.P(i, 0);
         for (int j = 0; j < d; ++j)
         {
            const double a = vertex(v[0], j), q = E.P(i, 1 + d + j);
            R(i, 0) += E.P(i, 1 + j) * a + q * a * a;
            for (int k = 1; k < d; ++k)
            {
               const double b = vertex(v[k], j) - a;
               R(i, k) += E.P(i, 1 + j) * b + 2.0 * q * a * b;
               R(i, d - 1 + k) += q * b * b;
            }
         }
      }
      set(F, d - 1, R, ElementTransformation::BDR_ELEMENT);
      F.Face = &F;
      F.Elem1 = &E.T;
      F.Elem1No = 0;
      F.Elem2 = nullptr;
      F.Elem2No = -1;
      F.mask_(16 | 4 | 1 | (E2 ? 8 | 2 : 0));
      local(F.Loc1, d, v);
      if (E2) { F.Elem2 = &E2->T; F.Elem2No = 1; local(F.Loc2, d, v2); }
      for (int k = 0; k < nf; ++k)
      {
         const IntegrationPoint &ip = fe->GetNodes().IntPoint(k);
         at.push_back(find(*E.e, F.Loc1, ip));
         if (E2) { at2.push_back(find(*E2->e, F.Loc2, ip)); }
         F.IsoparametricTransformation::SetIntPoint(&ip);
         Vector m(d);
         CalcOrtho(F.Jacobian(), m);
         nrm.push_back(m);
         w.push_back(ip.weight);
      }
   }
};
static const int *face(int d, int k)
{
   static const int s[3][2] = {{0, 1}, {1, 2}, {2, 0}}, t[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
   return d == 2 ? s[k] : t[k];
}
namespace mfem
{
void GridFunction::GetVectorValues(ElementTransformation &T, const IntegrationRule &ir, DenseMatrix &vals, DenseMatrix *) const
{
   const FiniteElement &fe = *fes->GetFE(T.ElementNo);
   const int n = fe.GetDof();
   vals.SetSize(fes->GetVDim(), ir.GetNPoints());
   vals = 0.0;
   Vector s(n);
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      fe.CalcShape(ir.IntPoint(i), s);
      for (int m = 0; m < fes->GetVDim(); ++m) { for (int j = 0; j < n; ++j) { vals(m, i) += s(j) * (*this)(m * n + j); } }
   }
}
}
static adept::Stack ST;
// polynomial fluxes: sum_d dir_d (A_d u_n u_{n+1} + B_d u_{n+1})
static double A(int d) { return 1.0 + 0.5 * d; }
static double B(int d) { return 0.25 - 0.5 * d; }
template <class V> static double Ad(const V &v) { double s = 0.0; for (int i = 0; i < v.Size(); ++i) { s += v(i) * A(i); } return s; }
template <class V> static double Bd(const V &v) { double s = 0.0; for (int i = 0; i < v.Size(); ++i) { s += v(i) * B(i); } return s; }
static double F(int n, double a, double b, const Vector &u) { const int m = (n + 1) % u.Size(); return a * u(n) * u(m) + b * u(m); }
static void dF(double a, double b, const Vector &u, DenseMatrix &J)
{
   J = 0.0;
   for (int n = 0; n < u.Size(); ++n) { const int m = (n + 1) % u.Size(); J(n, n) += a * u(m); J(n, m) += a * u(n) + b; }
}
static double F2(int n, double a, double b, const Vector &u, const Vector &v) { const int m = (n + 1) % u.Size(); return 0.5 * (a * (u(n) * v(m) + v(n) * u(m)) + b * (u(m) + v(m))); }
static void dF2(double a, double b, const Vector &v, DenseMatrix &J)   // with respect to the other argument
{
   J = 0.0;
   for (int n = 0; n < v.Size(); ++n) { const int m = (n + 1) % v.Size(); J(n, n) += 0.5 * a * v(m); J(n, m) += 0.5 * (a * v(n) + b); }
}
static double ent(int n, const Vector &u) { return u(n) + 0.5 * u(n) * u((n + 1) % u.Size()); }
static void dent(const Vector &u, DenseMatrix &J)
{
   J = 0.0;
   for (int n = 0; n < u.Size(); ++n) { const int m = (n + 1) % u.Size(); J(n, n) += 1.0 + 0.5 * u(m); J(n, m) += 0.5 * u(n); }
}
struct Inviscid : InviscidIntegrator<Inviscid>
{
   Inviscid(int ns, double a) : InviscidIntegrator<Inviscid>(ST, ns, a) { }
   double calcVolFun(const Vector &x, const Vector &u) { return x(0) * u(0) * u(0) + u(u.Size() - 1); }
   void calcFlux(const Vector &dir, const Vector &u, Vector &f) { for (int n = 0; n < u.Size(); ++n) { f(n) = F(n, Ad(dir), Bd(dir), u); } }
   void calcFluxJacState(const Vector &dir, const Vector &u, DenseMatrix &J) { dF(Ad(dir), Bd(dir), u, J); }
   void calcFluxJacDir(const Vector &, const Vector &, DenseMatrix &) { }
};
struct Dyadic : DyadicFluxIntegrator<Dyadic>
{
   Dyadic(int ns, double a) : DyadicFluxIntegrator<Dyadic>(ST, ns, a) { }
   void calcFlux(int di, const Vector &u, const Vector &v, Vector &f) { for (int n = 0; n < u.Size(); ++n) { f(n) = F2(n, A(di), B(di), u, v); } }
   void calcFluxJacStates(int di, const Vector &u, const Vector &v, DenseMatrix &JL, DenseMatrix &JR) { dF2(A(di), B(di), v, JL); dF2(A(di), B(di), u, JR); }
};
static double norm2(const DenseMatrix &a) { double s = 0.0; for (int i = 0; i < a.Height(); ++i) { for (int j = 0; j < a.Width(); ++j) { s += (1.0 + 0.5 * j) * a(i, j) * a(i, j); } } return s; }
// A(u) v = (c + u_n^2) v_n + u_0 v_{n+1} / 2
struct LPS : LPSIntegrator<LPS>
{
   LPS(int ns, double a, double c) : LPSIntegrator<LPS>(ST, ns, a, c) { }
   static double S(int n, double c, const Vector &u, const Vector &v) { return (c + u(n) * u(n)) * v(n) + 0.5 * u(0) * v((n + 1) % u.Size()); }
   void convertVars(const Vector &u, Vector &q) { for (int n = 0; n < u.Size(); ++n) { q(n) = ent(n, u); } }
   void convertVarsJacState(const Vector &u, DenseMatrix &J) { dent(u, J); }
   void applyScaling(const DenseMatrix &a, const Vector &u, const Vector &v, Vector &Av) { const double c = norm2(a); for (int n = 0; n < u.Size(); ++n) { Av(n) = S(n, c, u, v); } }
   void applyScalingJacState(const DenseMatrix &, const Vector &u, const Vector &v, DenseMatrix &J)
   {
      J = 0.0;
      for (int n = 0; n < u.Size(); ++n) { J(n, n) += 2.0 * u(n) * v(n); J(n, 0) += 0.5 * v((n + 1) % u.Size()); }
   }
   void applyScalingJacV(const DenseMatrix &a, const Vector &u, DenseMatrix &J)
   {
      J = 0.0;
      for (int n = 0; n < u.Size(); ++n) { J(n, n) += norm2(a) + u(n) * u(n); J(n, (n + 1) % u.Size()) += 0.5 * u(0); }
   }
   void applyScalingJacAdjJ(const DenseMatrix &, const Vector &, const Vector &, DenseMatrix &) { }
};
struct Bnd : InviscidBoundaryIntegrator<Bnd>
{
   bool pos;
   Bnd(const Coll &c, int ns, double a, bool position = true) : InviscidBoundaryIntegrator<Bnd>(ST, &c, ns, a), pos(position) { }
   static double extra(bool pos, const Vector &x) { return pos ? 0.5 * x(0) : 0.0; }
   double calcBndryFun(const Vector &x, const Vector &dir, const Vector &u) { return x(0) * dir(1) * u(0) * u(0) + dir(0) * u(u.Size() - 1); }
   void calcFlux(const Vector &x, const Vector &dir, const Vector &u, Vector &f) { for (int n = 0; n < u.Size(); ++n) { f(n) = F(n, Ad(dir), Bd(dir) + extra(pos, x), u); } }
   void calcFluxJacState(const Vector &x, const Vector &dir, const Vector &u, DenseMatrix &J) { dF(Ad(dir), Bd(dir) + extra(pos, x), u, J); }
   void calcFluxJacDir(const Vector &, const Vector &, const Vector &, DenseMatrix &) { }
};
// upwinded a little: the flux of the mean plus dir_0 (u - v)/4, with u first
struct IFace : InviscidFaceIntegrator<IFace>
{
   IFace(const Coll &c, int ns, double a) : InviscidFaceIntegrator<IFace>(ST, &c, ns, a) { }
   static double f(int n, const Vector &dir, const Vector &u, const Vector &v) { return F2(n, Ad(dir), Bd(dir), u, v) + 0.25 * dir(0) * (u(n) - 2.0 * v(n)); }
   double calcIFaceFun(const Vector &dir, const Vector &u, const Vector &v) { return f(0, dir, u, v) * u(0) + dir(1) * v(0); }
   void calcFlux(const Vector &dir, const Vector &u, const Vector &v, Vector &q) { for (int n = 0; n < u.Size(); ++n) { q(n) = f(n, dir, u, v); } }
   void calcFluxJacState(const Vector &dir, const Vector &u, const Vector &v, DenseMatrix &JL, DenseMatrix &JR)
   {
      dF2(Ad(dir), Bd(dir), v, JL);
      dF2(Ad(dir), Bd(dir), u, JR);
      for (int n = 0; n < u.Size(); ++n) { JL(n, n) += 0.25 * dir(0); JR(n, n) -= 0.5 * dir(0); }
   }
   void calcFluxJacDir(const Vector &, const Vector &, const Vector &, DenseMatrix &) { }
};
struct Mass : NonlinearMassIntegrator<Mass>
{
   Mass(int ns, double a) : NonlinearMassIntegrator<Mass>(ns, a) { }
   void convertVars(const Vector &u, Vector &q) { for (int n = 0; n < u.Size(); ++n) { q(n) = ent(n, u); } }
   void convertVarsJacState(const Vector &u, DenseMatrix &J) { dent(u, J); }
};
struct Source : MMSIntegrator<Source>
{
   Source(int ns, double a) : MMSIntegrator<Source>(ns, a) { }
   static double s(int n, const Vector &x) { double r = 1.0 + n; for (int i = 0; i < x.Size(); ++i) { r += (i + 1 + n) * x(i) * x((i + 1) % x.Size()); } return r; }
   void calcSource(const Vector &x, Vector &q) { for (int n = 0; n < q.Size(); ++n) { q(n) = s(n, x); } }
};
// C_d = (1 + x_0^2) u_n Dw(n, d) + u_0 Dw(n+1, d+1) / 2
struct Visc : SymmetricViscousIntegrator<Visc>
{
   Visc(int ns, double a) : SymmetricViscousIntegrator<Visc>(ST, ns, a) { }
   static double f(int d, int n, const Vector &x, const Vector &u, const DenseMatrix &D) { return (1.0 + x(0) * x(0)) * u(n) * D(n, d) + 0.5 * u(0) * D((n + 1) % D.Height(), (d + 1) % D.Width()); }
   void convertVars(const Vector &u, Vector &q) { for (int n = 0; n < u.Size(); ++n) { q(n) = ent(n, u); } }
   void convertVarsJacState(const Vector &u, DenseMatrix &J) { dent(u, J); }
   void applyScaling(int d, const Vector &x, const Vector &u, const DenseMatrix &D, Vector &q) { for (int n = 0; n < u.Size(); ++n) { q(n) = f(d, n, x, u, D); } }
   void applyScalingJacState(int d, const Vector &x, const Vector &u, const DenseMatrix &D, DenseMatrix &J)
   {
      J = 0.0;
      for (int n = 0; n < u.Size(); ++n) { J(n, n) += (1.0 + x(0) * x(0)) * D(n, d); J(n, 0) += 0.5 * D((n + 1) % D.Height(), (d + 1) % D.Width()); }
   }
   void applyScalingJacDw(int d, const Vector &x, const Vector &u, const DenseMatrix &D, std::vector<DenseMatrix> &J)
   {
      for (auto &j : J) { j = 0.0; }
      for (int n = 0; n < u.Size(); ++n) { J[d](n, n) += (1.0 + x(0) * x(0)) * u(n); J[(d + 1) % D.Width()](n, (n + 1) % D.Height()) += 0.5 * u(0); }
   }
};
struct VBnd : ViscousBoundaryIntegrator<VBnd>
{
   VBnd(const Coll &c, int ns, double a) : ViscousBoundaryIntegrator<VBnd>(ST, &c, ns, a) { }
   static double f(int n, const Vector &x, const Vector &dir, double jac, const Vector &u, const DenseMatrix &D)
   {
      double s = (x(0) + 0.5 * jac) * u(n) * u(n);
      for (int d = 0; d < dir.Size(); ++d) { s += dir(d) * u((n + 1) % u.Size()) * D(n, d); }
      return s;
   }
   static double g(int n, int d, const Vector &x, const Vector &dir, const Vector &u) { return dir(d) * u(n) * u((n + 1) % u.Size()) + x(1) * u(0); }
   double calcBndryFun(const Vector &x, const Vector &dir, double jac, const Vector &u, const DenseMatrix &D) { return f(0, x, dir, jac, u, D); }
   void convertVars(const Vector &u, Vector &q) { for (int n = 0; n < u.Size(); ++n) { q(n) = ent(n, u); } }
   void convertVarsJacState(const Vector &u, DenseMatrix &J) { dent(u, J); }
   void calcFlux(const Vector &x, const Vector &dir, double jac, const Vector &u, const DenseMatrix &D, Vector &q) { for (int n = 0; n < u.Size(); ++n) { q(n) = f(n, x, dir, jac, u, D); } }
   void calcFluxDv(const Vector &x, const Vector &dir, const Vector &u, DenseMatrix &q) { for (int n = 0; n < u.Size(); ++n) { for (int d = 0; d < dir.Size(); ++d) { q(n, d) = g(n, d, x, dir, u); } } }
   void calcFluxJacState(const Vector &x, const Vector &dir, double jac, const Vector &u, const DenseMatrix &D, DenseMatrix &J)
   {
      J = 0.0;
      for (int n = 0; n < u.Size(); ++n)
      {
         J(n, n) += 2.0 * (x(0) + 0.5 * jac) * u(n);
         for (int d = 0; d < dir.Size(); ++d) { J(n, (n + 1) % u.Size()) += dir(d) * D(n, d); }
      }
   }
   void calcFluxJacDw(const Vector &, const Vector &dir, double, const Vector &u, const DenseMatrix &, std::vector<DenseMatrix> &J)
   {
      for (int d = 0; d < dir.Size(); ++d) { J[d] = 0.0; for (int n = 0; n < u.Size(); ++n) { J[d](n, n) += dir(d) * u((n + 1) % u.Size()); } }
   }
   void calcFluxDvJacState(const Vector &x, const Vector dir, const Vector &u, std::vector<DenseMatrix> &J)
   {
      for (int d = 0; d < dir.Size(); ++d)
      {
         J[d] = 0.0;
         for (int n = 0; n < u.Size(); ++n) { const int m = (n + 1) % u.Size(); J[d](n, n) += dir(d) * u(m); J[d](n, m) += dir(d) * u(n); J[d](n, 0) += x(1); }
      }
   }
};
// nodal states: u(n, i) at u[n * nodes + i]
struct State
{
   int ns, n;
   std::vector<double> v;
   State(int ns_, int n_, L name = "u") : ns(ns_), n(n_) { for (int i = 0; i < ns * n; ++i) { v.push_back(sym_real_in(name, i, -2.0, 2.0)); } }
   Vector at(int i) const { Vector r(ns); for (int k = 0; k < ns; ++k) { r(k) = v[k * n + i]; } return r; }
   Vector W(int i) const { Vector u = at(i), r(ns); for (int k = 0; k < ns; ++k) { r(k) = ent(k, u); } return r; }
   Vector vec() { return Vector(v.data(), ns * n); }
};
static void size(const Vector &r, int m) { sym_assert(r.Size() == m, "size of the element vector"); }
static void same(const Vector &r, const std::vector<double> &want, L l)
{
   size(r, (int)want.size());
   for (int i = 0; i < r.Size(); ++i) { sym_assert_near(r(i), want[i], TOL, l); }
   sym_observe("vector", r(0));
}
static void grad(const DenseMatrix &K, const Vector &r, const std::vector<double> &u, const std::vector<double> &u2 = {})
{
   const int n1 = (int)u.size(), n = n1 + (int)u2.size();
   sym_assert(r.Size() == n && K.Height() == n && K.Width() == n, "size of the element matrix");
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { sym_assert_near(K(i, j), sym_diff(r(i), (j < n1 ? u[j] : u2[j - n1])), TOL, "element matrix is the derivative of the element vector"); } }
}
static void conserved(const Vector &r, int ns, int n)
{
   for (int k = 0; k < ns; ++k) { double s = 0.0; for (int i = 0; i < n; ++i) { s += r(k * n + i); } sym_assert_near(s, 0.0, TOL, "the volume terms of an element add up to zero"); }
}
static double alpha() { return sym_real_in("alpha", 0, -2.0, 2.0); }
#ifdef VERIF_THOROUGH
static const int DEEP = 4;
#else
static const int DEEP = 2;
#endif
static int degree(int d) { return sym_choice("degree", 0, 0, d == 3 ? 1 : DEEP); }
static int face_degree(int d) { return sym_choice("degree", 0, 0, d == 3 ? 0 : DEEP); }
static int states(int d) { return sym_choice("states", 0, 1, 2); }
template <int d> static void inviscid()
{
   const int ns = states(d);
   El E(d, degree(d), true);
   State s(ns, E.n);
   const double a = alpha();
   Inviscid I(ns, a);
   Vector r;
   I.AssembleElementVector(*E.e, E.T, s.vec(), r);
   std::vector<double> want(ns * E.n);
   double fun = 0.0;
   for (int i = 0; i < E.n; ++i)
   {
      const Vector u = s.at(i);
      fun += a * E.H(i) * E.det[i] * (E.x[i](0) * u(0) * u(0) + u(ns - 1));
      for (int k = 0; k < d; ++k)
      {
         Vector dir(d);
         E.adj[i].GetRow(k, dir);
         for (int j = 0; j < E.n; ++j) { for (int m = 0; m < ns; ++m) { want[m * E.n + j] -= a * E.e->getQ(k, i, j) * F(m, Ad(dir), Bd(dir), u); } }
      }
   }
   same(r, want, "weak form of the flux divergence");
   conserved(r, ns, E.n);
   sym_assert_near(I.GetElementEnergy(*E.e, E.T, s.vec()), fun, TOL, "integral over the element");
   DenseMatrix K;
   I.AssembleElementGrad(*E.e, E.T, s.vec(), K);
   grad(K, r, s.v);
   sym_reach("done");
}
template <int d> static void dyadic()
{
   const int ns = states(d);
   El E(d, degree(d), true);
   State s(ns, E.n);
   const double a = alpha();
   Dyadic I(ns, a);
   Vector r;
   I.AssembleElementVector(*E.e, E.T, s.vec(), r);
   std::vector<double> want(ns * E.n);
   for (int i = 0; i < E.n; ++i)
   {
      for (int j = 0; j < E.n; ++j)
      {
         if (i == j) { continue; }
         for (int k = 0; k < d; ++k) { for (int m = 0; m < ns; ++m) { want[m * E.n + i] += a * E.skew(k, i, j) * F2(m, A(k), B(k), s.at(i), s.at(j)); } }
      }
   }
   same(r, want, "two-point form of the flux divergence");
   conserved(r, ns, E.n);
   DenseMatrix K;
   I.AssembleElementGrad(*E.e, E.T, s.vec(), K);
   grad(K, r, s.v);
   sym_reach("done");
}
template <int d> static void lps()
{
   const int ns = d == 3 ? 1 : states(d);
   El E(d, degree(d), true, d > 1);
   State s(ns, E.n);
   const double a = alpha(), c = sym_real_in("lps", 0, 0.0, 2.0);
   LPS I(ns, a, c);
   Vector r;
   I.AssembleElementVector(*E.e, E.T, s.vec(), r);
   std::vector<double> want(ns * E.n);
   double diss = 0.0, rate = 0.0;
   for (int i = 0; i < E.n; ++i)
   {
      Vector p(ns);
      p = 0.0;
      for (int j = 0; j < E.n; ++j) { for (int m = 0; m < ns; ++m) { p(m) += E.e->getProjOperatorEntry(i, j) * s.W(j)(m); } }
      for (int m = 0; m < ns; ++m)
      {
         const double q = a * c * E.H(i) * LPS::S(m, norm2(E.adj[i]), s.at(i), p);
         diss += q * p(m);
         for (int j = 0; j < E.n; ++j) { want[m * E.n + j] += E.e->getProjOperatorEntry(i, j) * q; }
         rate += s.W(i)(m) * r(m * E.n + i);
      }
   }
   same(r, want, "local projection stabilisation");
   sym_assert_near(rate, diss, 1e-8, "the stabilisation acts through the scaled fluctuations only");
   conserved(r, ns, E.n);
   DenseMatrix K;
   I.AssembleElementGrad(*E.e, E.T, s.vec(), K);
   grad(K, r, s.v);
   sym_reach("done");
}
template <int d> static void mass()
{
   const int ns = 1 + sym_choice("more", 0, 0, 2);
   El E(d, degree(d), true);
   State s(ns, E.n);
   const double a = alpha();
   Mass I(ns, a);
   Source S(ns, a);
   Vector r, q;
   I.AssembleElementVector(*E.e, E.T, s.vec(), r);
   S.AssembleElementVector(*E.e, E.T, s.vec(), q);
   std::vector<double> want(ns * E.n), src(ns * E.n);
   for (int i = 0; i < E.n; ++i) { for (int m = 0; m < ns; ++m) { want[m * E.n + i] = a * E.H(i) * E.det[i] * s.W(i)(m); src[m * E.n + i] = a * E.H(i) * E.det[i] * Source::s(m, E.x[i]); } }
   same(r, want, "lumped mass times the converted state");
   same(q, src, "lumped mass times the source");
   DenseMatrix K;
   S.AssembleElementGrad(*E.e, E.T, s.vec(), K);
   grad(K, q, s.v);
   I.AssembleElementGrad(*E.e, E.T, s.vec(), K);
   grad(K, r, s.v);
   sym_reach("done");
}
template <int d> static void visc()
{
   const int ns = states(d);
   El E(d, degree(d), true, d > 1);
   State s(ns, E.n);
   const double a = alpha();
   Visc I(ns, a);
   Vector r;
   I.AssembleElementVector(*E.e, E.T, s.vec(), r);
   std::vector<double> want(ns * E.n);
   double diss = 0.0, rate = 0.0;
   for (int i = 0; i < E.n; ++i)
   {
      DenseMatrix D(ns, d);
      D = 0.0;
      for (int j = 0; j < E.n; ++j) { for (int k = 0; k < d; ++k) { for (int m = 0; m < ns; ++m) { D(m, k) += E.Q(k, i, j) * s.W(j)(m); } } }
      D *= 1.0 / (E.H(i) * E.det[i]);
      for (int k = 0; k < d; ++k)
      {
         for (int m = 0; m < ns; ++m)
         {
            const double f = a * Visc::f(k, m, E.x[i], s.at(i), D);
            diss += E.H(i) * E.det[i] * f * D(m, k);
            for (int j = 0; j < E.n; ++j) { want[m * E.n + j] += E.Q(k, i, j) * f; }
         }
      }
      for (int m = 0; m < ns; ++m) { rate += s.W(i)(m) * r(m * E.n + i); }
   }
   same(r, want, "weak form of the viscous terms");
   const double J = I.GetElementEnergy(*E.e, E.T, s.vec());
   sym_assert_near(J, rate, 1e-8, "energy is the converted state times the element vector");
   sym_assert_near(J, diss, 1e-8, "energy is the integral of the gradients times the scaled gradients");
   DenseMatrix K;
   I.AssembleElementGrad(*E.e, E.T, s.vec(), K);
   grad(K, r, s.v);
   sym_reach("done");
}
template <int d> static void bnd()
{
   const int ns = states(d), p = face_degree(d);
   El E(d, p, d == 2);
   Coll c(p);
   Face f(E, c, face(d, sym_choice("face", 0, 0, d)));
   State s(ns, E.n);
   const double a = alpha();
   Bnd I(c, ns, a);
   Vector r;
   I.AssembleFaceVector(*E.e, *E.e, f.F, s.vec(), r);
   std::vector<double> want(ns * E.n);
   double fun = 0.0;
   for (int k = 0; k < f.nf; ++k)
   {
      const int i = f.at[k];
      const Vector u = s.at(i);
      fun += a * f.w[k] * I.calcBndryFun(E.x[i], f.nrm[k], u);
      for (int m = 0; m < ns; ++m) { want[m * E.n + i] += a * f.w[k] * F(m, Ad(f.nrm[k]), Bd(f.nrm[k]) + 0.5 * E.x[i](0), u); }
   }
   same(r, want, "boundary flux times the weight of its node");
   sym_assert_near(I.GetFaceEnergy(*E.e, *E.e, f.F, s.vec()), fun, TOL, "integral over the face");
   DenseMatrix K;
   I.AssembleFaceGrad(*E.e, *E.e, f.F, s.vec(), K);
   grad(K, r, s.v);
   sym_reach("done");
}
template <int d> static void vbnd()
{
   const int ns = states(d), p = d == 3 ? 0 : sym_choice("degree", 0, 0, DEEP / 2);
   El E(d, p, d == 2, true);
   Coll c(p);
   Face f(E, c, face(d, sym_choice("face", 0, 0, d)));
   State s(ns, E.n);
   const double a = alpha();
   VBnd I(c, ns, a);
   Vector r;
   I.AssembleFaceVector(*E.e, *E.e, f.F, s.vec(), r);
   std::vector<double> want(ns * E.n);
   double fun = 0.0;
   for (int k = 0; k < f.nf; ++k)
   {
      const int i = f.at[k];
      const Vector u = s.at(i);
      DenseMatrix D(ns, d);
      D = 0.0;
      for (int j = 0; j < E.n; ++j) { for (int q = 0; q < d; ++q) { for (int m = 0; m < ns; ++m) { D(m, q) += E.Q(q, i, j) * s.W(j)(m); } } }
      D *= 1.0 / (E.H(i) * E.det[i]);
      fun += a * f.w[k] * VBnd::f(0, E.x[i], f.nrm[k], E.det[i], u, D);
      for (int m = 0; m < ns; ++m)
      {
         want[m * E.n + i] += a * f.w[k] * VBnd::f(m, E.x[i], f.nrm[k], E.det[i], u, D);
         for (int j = 0; j < E.n; ++j) { for (int q = 0; q < d; ++q) { want[m * E.n + j] += a * f.w[k] / (E.H(i) * E.det[i]) * E.Q(q, i, j) * VBnd::g(m, q, E.x[i], f.nrm[k], u); } }
      }
   }
   same(r, want, "boundary flux and its dual term");
   sym_assert_near(I.GetFaceEnergy(*E.e, *E.e, f.F, s.vec()), fun, TOL, "integral over the face");
   DenseMatrix K;
   I.AssembleFaceGrad(*E.e, *E.e, f.F, s.vec(), K);
   grad(K, r, s.v);
   sym_reach("done");
}
template <int d> static void iface()
{
   const int ns = states(d), p = face_degree(d);
   El E(d, p, d == 2), E2(d, p, false, true, 1.0);
   Coll c(p);
   int v[3];
   const int *o = face(d, sym_choice("face2", 0, 0, d));
   for (int i = 0; i < d; ++i) { v[i] = o[d - 1 - i]; }   // seen from the other side
   Face f(E, c, face(d, sym_choice("face", 0, 0, d)), &E2, v);
   State s(ns, E.n), t(ns, E.n, "t");
   std::vector<double> z(s.v);
   z.insert(z.end(), t.v.begin(), t.v.end());
   Vector Z(z.data(), 2 * ns * E.n), r;
   const double a = alpha();
   IFace I(c, ns, a);
   I.AssembleFaceVector(*E.e, *E2.e, f.F, Z, r);
   std::vector<double> want(2 * ns * E.n);
   double fun = 0.0;
   for (int k = 0; k < f.nf; ++k)
   {
      Vector nrm = f.nrm[k];
      nrm *= f.w[k];
      const Vector u = s.at(f.at[k]), q = t.at(f.at2[k]);
      fun += IFace::f(0, nrm, u, q) * u(0) + nrm(1) * q(0);
      for (int m = 0; m < ns; ++m)
      {
         want[m * E.n + f.at[k]] += a * IFace::f(m, nrm, u, q);
         want[(ns + m) * E.n + f.at2[k]] -= a * IFace::f(m, nrm, u, q);
      }
   }
   same(r, want, "what leaves one element enters the other");
   IFace one(c, ns, 1.0);
   sym_assert_near(one.GetFaceEnergy(*E.e, *E2.e, f.F, Z), fun, TOL, "integral over the face");
   DenseMatrix K;
   I.AssembleFaceGrad(*E.e, *E2.e, f.F, Z, K);
   grad(K, r, s.v, t.v);
   sym_reach("done");
}
// a uniform state gives no residual, whichever form of the divergence is used
template <int d> static void freestream()
{
   const int ns = 2, p = face_degree(d);
   El E(d, p, false);
   Coll c(p);
   State one(ns, 1);
   std::vector<double> v;
   for (int m = 0; m < ns; ++m) { for (int i = 0; i < E.n; ++i) { v.push_back(one.v[m]); } }
   Vector U(v.data(), ns * E.n), r, q, b;
   Inviscid I(ns, 1.0);
   Dyadic D(ns, 1.0);
   LPS S(ns, 1.0, 1.0);
   I.AssembleElementVector(*E.e, E.T, U, r);
   D.AssembleElementVector(*E.e, E.T, U, q);
   for (int k = 0; k <= d; ++k)
   {
      Face f(E, c, face(d, k));
      Bnd B(c, ns, 1.0, false);
      B.AssembleFaceVector(*E.e, *E.e, f.F, U, b);
      for (int i = 0; i < ns * E.n; ++i) { r(i) += b(i); q(i) += b(i); }
   }
   for (int i = 0; i < ns * E.n; ++i) { sym_assert_near(r(i), 0.0, TOL, "weak form and boundary flux of a uniform state cancel"); sym_assert_near(q(i), 0.0, TOL, "two-point form and boundary flux of a uniform state cancel"); }
   sym_observe("residual", r(0) + q(0) + 1.0);
   S.AssembleElementVector(*E.e, E.T, U, r);
   for (int i = 0; i < ns * E.n; ++i) { sym_assert_near(r(i), 0.0, TOL, "a uniform state is not stabilised"); }
   sym_reach("done");
}
// nor does the viscous discretisation diffuse it
template <int d> static void uniform(int p)
{
   const int ns = 2;
   El E(d, p, false);
   State one(ns, 1);
   std::vector<double> v;
   for (int m = 0; m < ns; ++m) { for (int i = 0; i < E.n; ++i) { v.push_back(one.v[m]); } }
   Vector U(v.data(), ns * E.n), q;
   Visc V(ns, 1.0);
   V.AssembleElementVector(*E.e, E.T, U, q);
   for (int i = 0; i < ns * E.n; ++i) { sym_assert_near(q(i), 0.0, TOL, "a uniform state is not diffused"); }
   sym_reach("done");
}
extern "C" void h_uniform_1() { uniform<1>(sym_choice("degree", 0, 0, 3)); }
extern "C" void h_uniform_2() { uniform<2>(sym_choice("degree", 0, 1, 3)); }
extern "C" void h_uniform_3() { uniform<3>(0); }
extern "C" void h_uniform_triangle_0() { uniform<2>(0); }
struct DyadicMesh : DyadicMeshSensIntegrator<DyadicMesh>
{
   DyadicMesh(const GridFunction &s, const GridFunction &a, int ns, double al) : DyadicMeshSensIntegrator<DyadicMesh>(s, a, ns, al) { }
   void calcFlux(int di, const Vector &u, const Vector &v, Vector &f) { for (int n = 0; n < u.Size(); ++n) { f(n) = F2(n, A(di), B(di), u, v); } }
};
struct BndMesh : BoundaryMeshSensIntegrator<BndMesh>
{
   BndMesh(const GridFunction &s, const GridFunction &a, int ns, double al) : BoundaryMeshSensIntegrator<BndMesh>(s, a, ns, al) { }
   void calcFluxBar(const Vector &, const Vector &dir, const Vector &u, const Vector &f_bar, Vector &dir_bar)
   {
      for (int i = 0; i < dir.Size(); ++i) { dir_bar(i) = 0.0; for (int n = 0; n < u.Size(); ++n) { dir_bar(i) += f_bar(n) * F(n, A(i), B(i), u); } }
   }
};
struct Fields
{
   el::Field *u, *p;
   Fields(El &E, State &s, State &t, const Coll *c) : u(field(E, s, c)), p(field(E, t, c)) { }
   static el::Field *field(El &E, State &s, const Coll *c)
   {
      struct S : el::Space { S(const FiniteElement &f, int vd, const Coll *c) : el::Space(f, vd) { fec = c; } };
      struct Fd : el::Field { Fd(const FiniteElement &f, double *v, int n, int vd, const Coll *c) : el::Field(f, v, n, vd) { fes = new S(f, vd, c); } };
      return new Fd(*E.e, s.v.data(), s.ns * s.n, s.ns, c);
   }
};
static void mesh(const Vector &m, const Vector &r, State &t, El &E, L l)
{
   const int nd = 1 + 2 * E.d;
   double J = 0.0;
   for (int i = 0; i < r.Size(); ++i) { J += r(i) * t.v[i]; }
   sym_assert(m.Size() == E.d * nd, "one derivative for each node coordinate");
   sym_observe("derivative", m(E.row * nd + E.col));
   sym_assert_near(m(E.row * nd + E.col), sym_diff(J, E.X), TOL, l);
   sym_reach("done");
}
template <int d> static void dyadic_mesh()
{
   const int ns = d == 3 ? 1 : states(d);
   El E(d, degree(d), true, true);
   E.vary(1 + 2 * d);
   State s(ns, E.n), t(ns, E.n, "psi");
   const double a = alpha();
   Dyadic I(ns, a);
   Fields f(E, s, t, nullptr);
   DyadicMesh S(*f.u, *f.p, ns, a);
   Vector r, m;
   I.AssembleElementVector(*E.e, E.T, s.vec(), r);
   S.AssembleRHSElementVect(Powers(d), E.T, m);
   mesh(m, r, t, E, "derivative of the two-point form with respect to the map");
}
template <int d> static void bnd_mesh()
{
   const int ns = states(d), p = face_degree(d);
   El E(d, p, d == 2, true);
   E.vary(d == 3 ? 1 + d : 1 + 2 * d);
   Coll c(p);
   Face f(E, c, face(d, sym_choice("face", 0, 0, d)));
   State s(ns, E.n), t(ns, E.n, "psi");
   const double a = alpha();
   Bnd I(c, ns, a, false);
   Fields q(E, s, t, &c);
   BndMesh S(*q.u, *q.p, ns, a);
   Vector r, m;
   I.AssembleFaceVector(*E.e, *E.e, f.F, s.vec(), r);
   S.AssembleRHSElementVect(Powers(d), f.F, m);
   mesh(m, r, t, E, "derivative of the boundary flux with respect to the map");
}
// the energies of the entropy-stable integrators are entropy variables times element vector
template <int d, bool ev> static void energy()
{
   const int ns = d + 2;
   El E(d, 0, true, true);
   std::vector<double> v(ns * E.n);
   for (int i = 0; i < E.n; ++i)
   {
      for (int k = 0; k < ns; ++k)
      {
         const int j = k * E.n + i;
         v[j] = ev ? (k == 0 ? sym_real_in("w", j, -4.0, 8.0) : k == d + 1 ? sym_real_in("w", j, -8.0, -0.1) : sym_real_in("w", j, -2.0, 2.0))
                   : (k == 0 ? sym_real_in("q", j, 1.0, 2.0) : k == d + 1 ? sym_real_in("q", j, 4.0, 8.0) : sym_real_in("q", j, -1.0, 1.0));
      }
   }
   Vector U(v.data(), ns * E.n), r;
   const double a = alpha();
   const bool lp = ev || d == 2 || sym_choice("lps", 0, 0, 1);
   IsmailRoeIntegrator<d, ev> I(ST, a);
   EntStableLPSIntegrator<d, ev> S(ST, a, 0.5);
   NonlinearFormIntegrator &N = lp ? static_cast<NonlinearFormIntegrator &>(S) : I;
   N.AssembleElementVector(*E.e, E.T, U, r);
   const double J = N.GetElementEnergy(*E.e, E.T, U);
   double want = 0.0;
   for (int i = 0; i < E.n; ++i)
   {
      double q[ns], z[ns];
      for (int k = 0; k < ns; ++k) { q[k] = v[k * E.n + i]; }
      calcEntropyVars<double, d, ev>(q, z);
      for (int k = 0; k < ns; ++k) { want += z[k] * r(k * E.n + i); }
   }
   sym_assert_eq(J, want, "rate of change of the entropy");
   sym_reach("done");
}
extern "C" void h_energy_c1() { energy<1, false>(); }
extern "C" void h_energy_c2() { energy<2, false>(); }
#define E(k) extern "C" void h_##k##_1() { k<1>(); } extern "C" void h_##k##_2() { k<2>(); } extern "C" void h_##k##_3() { k<3>(); }
#define G(k) extern "C" void h_##k##_2() { k<2>(); } extern "C" void h_##k##_3() { k<3>(); }
#undef MF
E(inviscid) E(dyadic) E(lps) E(mass) E(visc)
G(bnd) G(vbnd) G(iface) G(freestream) E(dyadic_mesh) G(bnd_mesh)
