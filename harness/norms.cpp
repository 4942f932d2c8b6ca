// Error norms of fields: calcL2Error, calcLpError, calcLpNorm on two elements.
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <mfem.hpp>
#include "elem.hpp"
#include "finite_element_state.hpp"
#include "sym.h"
using namespace mfem;
using namespace miso;
static const char *coll_name;
namespace miso
{
FiniteElementVector::FiniteElementVector(mfem::ParMesh &mesh, mfem::ParFiniteElementSpace &space, std::string name)
 : mesh_(&mesh), coll_(std::make_unique<const ModelColl>(coll_name)), space_(&space), gf(std::make_unique<mfem::ParGridFunction>(&space)), name_(std::move(name)) { }
}
enum { SCALAR, VECTOR };
static double R(const char *n, int i, double lo, double hi) { return sym_real_in(n, i, lo, hi); }
// an element with nodes of its own: two points, the second with any weight
struct Noded : el::Quad
{
   Noded()
   {
      Nodes = IntegrationRule(2);
      for (int k = 0; k < 2; ++k)
      {
         IntegrationPoint &q = Nodes.IntPoint(k);
         q.x = 0.125 + 0.5 * k;
         q.y = 0.75 - 0.25 * k;
         q.z = 0.0;
         q.weight = k ? R("weight", 0, -1.0, 1.0) : 0.5;
      }
   }
};
struct World
{
   enum { ND = 6 };
   ModelMesh mesh;
   ModelSpace fes;
   Noded noded;
   el::Quad quad;
   el::Element a{2, false}, b;
   bool sbp;
   World(int vdim, bool sbp_) : quad(FiniteElement::VALUE, 2), b(2, vdim == 1), sbp(sbp_)
   {
      coll_name = sbp ? (sym_choice("family", 0, 0, 1) ? "DSBP_2D_P1" : "SBP_2D_P1") : "H1_2D_P1";
      const FiniteElement *fe = sbp ? static_cast<FiniteElement *>(&noded) : &quad;
      b.T.ElementNo = 1;
      sym_assume(vdim > 1 || b.node == 2);
      fes.vdim = vdim;
      fes.nd = ND;
      fes.el = {{fe, &a.T, {0, 1, 2, 3}}, {fe, &b.T, {-1 - 1, 4, -1 - 5, 2}}};   // neighbours share two, two have another sign
   }
   const IntegrationRule &rule() const { return sbp ? noded.GetNodes() : el::rule(Geometry::SQUARE, 2 * 2 + 3); }
};
static double exact(int c, double x, double y) { return 0.5 - 0.25 * c + (0.75 + c) * x - 0.5 * x * y; }
struct Exact : VectorCoefficient
{
   explicit Exact(int n) : VectorCoefficient(n) { }
   using VectorCoefficient::Eval;
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double xb[3];
      Vector x(xb, 2);
      T.Transform(ip, x);
      v.SetSize(vdim);
      for (int c = 0; c < vdim; ++c) { v(c) = exact(c, x(0), x(1)); }
   }
};
struct ExactScalar : Coefficient
{
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double xb[3];
      Vector x(xb, 2);
      T.Transform(ip, x);
      return exact(0, x(0), x(1));
   }
};
// f(weight times the size of the element at the point, the errors of the components)
template <typename F> static void points(const World &w, const double *u, bool zero, F f)
{
   const IntegrationRule &ir = w.rule();
   const int vd = w.fes.vdim;
   for (int e = 0; e < 2; ++e)
   {
      const DenseMatrix &P = (e ? w.b : w.a).T.GetPointMat();
      for (int j = 0; j < ir.GetNPoints(); ++j)
      {
         const double x = ir.IntPoint(j).x, y = ir.IntPoint(j).y;
         const double s[4] = {(1 - x) * (1 - y), x * (1 - y), x * y, (1 - x) * y};
         const double sx[4] = {-(1 - y), 1 - y, y, -y}, sy[4] = {-(1 - x), -x, x, 1 - x};
         double X[2] = {0, 0}, A[2] = {0, 0}, B[2] = {0, 0}, d[3] = {0, 0, 0};
         for (int k = 0; k < 4; ++k) { for (int i = 0; i < 2; ++i) { X[i] += s[k] * P(i, k); A[i] += sx[k] * P(i, k); B[i] += sy[k] * P(i, k); } }
         for (int c = 0; c < vd; ++c)
         {
            for (int k = 0; k < 4; ++k) { const int n = w.fes.el[e].dofs[k]; d[c] += (n >= 0 ? u[n + 6 * c] : -u[-1 - n + 6 * c]) * s[k]; }
            if (!zero) { d[c] -= exact(c, X[0], X[1]); }
         }
         f(ir.IntPoint(j).weight * (A[0] * B[1] - A[1] * B[0]), d);
      }
   }
}
static double *unknown(int vd)
{
   static double u[18];
   for (int i = 0; i < 6 * vd; ++i) { u[i] = i == 1 || i == (vd == 1 ? 4 : 8) ? R("u", i, -2.0, 2.0) : 0.25 * (i % 5) - 0.5; }
   return u;
}
// r is the p-th root of S; the root of a negative S is taken with its sign
static void root(double r, double S, double p)
{
   if (p == 1.0) { sym_assert_near(r, S, 1e-9, "the norm is the integral of the error"); }
   else { sym_assert_near(r < 0.0 ? -r * r : r * r, S, 1e-9, "the square of the norm is the integral of the squared error"); }
   sym_assert(modelNormP() == p, "reduced with the same exponent");
}
enum What { L2, LP, NORM };
static void norm(int vd, What what, bool sbp)
{
   World w(vd, sbp);
   const double *u = unknown(vd);
   FiniteElementState state(w.mesh, w.fes, "state");
   for (int i = 0; i < 6 * vd; ++i) { state.gridFunc()(i) = u[i]; }
   const int entry = vd > 1 && what != NORM ? sym_choice("entry", 0, -1, vd - 1) : -1;
   const double p = what == L2 ? 2.0 : sym_choice("p", 0, 0, 2) == 0 ? 1.0 : sym_choice("p", 0, 0, 2) == 1 ? 2.0 : infinity();
   ExactScalar es;
   Exact ev(vd);
   double r;
   if (what == NORM) { r = calcLpNorm(state, p); }
   else if (what == L2) { r = vd == 1 ? calcL2Error(state, es) : calcL2Error(state, ev, entry); }
   else { r = vd == 1 ? calcLpError(state, es, p) : calcLpError(state, ev, p, entry); }
   sym_observe("norm", r);
   double S = 0.0;
   bool above = true, attained = false;
   points(w, u, what == NORM, [&](double wt, const double *d)
   {
      double e2 = 0.0;
      for (int c = 0; c < vd; ++c) { if (entry < 0 || entry == c) { e2 += d[c] * d[c]; } }
      const double e = vd == 1 || entry >= 0 ? fabs(d[entry < 0 ? 0 : entry]) : sqrt(e2);
      S += wt * (p == 1.0 ? e : e2);
      if (p == infinity())
      {
         const double q = vd == 1 || entry >= 0 ? e * e : e2;
         sym_assert(r * r >= q - 1e-9, "the maximum norm is no less than any error");
         attained = attained || fabs(r * r - q) <= 1e-9;
      }
   });
   if (p == infinity()) { sym_assert(r >= 0.0, "a norm"); sym_assert(attained, "the maximum norm is one of the errors"); sym_assert(modelNormP() == p, "reduced with the same exponent"); }
   else { root(r, S, p); }
   sym_reach("done");
}
extern "C" void h_l2_scalar() { norm(1, L2, false); }
extern "C" void h_l2_vector() { norm(2, L2, false); }
extern "C" void h_l2_sbp() { norm(sym_choice("vdim", 0, 1, 2), L2, true); }
extern "C" void h_lp_scalar() { norm(1, LP, false); }
extern "C" void h_lp_vector() { norm(2, LP, false); }
extern "C" void h_lp_sbp() { norm(1, LP, true); }
extern "C" void h_lp_sbp_vector() { norm(2, LP, true); }
extern "C" void h_norm_scalar() { norm(1, NORM, false); }
extern "C" void h_norm_vector() { norm(2, NORM, false); }
