// The discrete projections onto gradients and onto divergence-free fields, and
// their derivatives, for every mass matrix (see shim_projector/mfem.hpp).
#include <cmath>
#include <memory>
#include "mfem.hpp"
#include "irrotational_projector.hpp"
#include "div_free_projector.hpp"
#include "sym.h"
using namespace mfem;
using namespace miso;
static double R(const char *n, int i, double lo, double hi) { return sym_real_in(n, i, lo, hi); }
struct Fixture
{
   model::World &w = model::world();
   const int ne;
   ModelMesh mesh;
   ModelSpace h1, nd, mfes;
   ModelFunction nodes;
   static int build()
   {
      // a triangle, or a square with a diagonal
      model::World &w = model::world();
#ifdef VERIF_THOROUGH
      const int big = sym_choice("square", 0, 0, 1);
#else
      const int big = 0;
#endif
      static const int T[5] = {0, 1, 0, 2, 0}, Hd[5] = {1, 2, 2, 3, 3};
      w.nh = big ? 4 : 3;
      w.ne = big ? 5 : 3;
      for (int e = 0; e < w.ne; ++e) { w.tail[e] = T[e]; w.head[e] = Hd[e]; }
      const int inner = big ? 1 : sym_choice("inner", 0, 1, 2);
      for (int v = 0; v < w.nh; ++v) { w.boundary[v] = v < w.nh - inner; }
      for (int a = 0; a < w.ne; ++a)
      {
         for (int b = 0; b <= a; ++b)
         {
            w.M[a][b] = w.M[b][a] = a == b ? R("M", 6 * a + b, 3.0, 5.0) : R("M", 6 * a + b, -0.5, 0.5);
            w.dM[a][b] = w.dM[b][a] = R("dM", 6 * a + b, -0.25, 0.25);
         }
      }
      w.theta = R("theta", 0, -1.0, 1.0);
      return w.ne;
   }
   Fixture() : ne(build()), h1(&mesh, w.nh), nd(&mesh, w.ne), mfes(&mesh, 1), nodes(&mfes)
   {
      mesh.attributes.Append(1);
      mesh.bdr_attributes.Append(1);
      mesh.bdr_attributes.Append(2);
      mesh.nodes = &nodes;
   }
};
static void filled(const char *n, Vector &v, int k) { v.SetSize(k); for (int i = 0; i < k; ++i) { v(i) = R(n, i, -2.0, 2.0); } }
static void weakdiv(const model::World &w, const Vector &y, double *r) { for (int i = 0; i < w.nh; ++i) { r[i] = 0.0; for (int e = 0; e < w.ne; ++e) { r[i] += w.entry(model::WEAKDIV, i, e, model::eps(model::WEAKDIV, &model::rules().Get(model::Element().GetGeomType(), 3))) * y(e); } } }
// y is the gradient of something that vanishes on the boundary
static void gradient(const model::World &w, const Vector &y, const char *l)
{
   double pot[4] = {0, 0, 0, 0};
   for (int v = 1; v < w.nh; ++v) { for (int e = 0; e < w.ne; ++e) { if (w.tail[e] == 0 && w.head[e] == v) { pot[v] = y(e); } } }
   for (int e = 0; e < w.ne; ++e) { sym_assert_eq(y(e), pot[w.head[e]] - pot[w.tail[e]], l); }
   for (int v = 0; v < w.nh; ++v) { if (w.boundary[v]) { sym_assert_eq(pot[v], 0.0, l); } }
}
static void same(const Vector &a, const Vector &b, const char *l) { for (int i = 0; i < a.Size(); ++i) { sym_assert_eq(a(i), b(i), l); } }
static MISOInputs moved(Vector &c) { return MISOInputs{{"mesh_coords", InputVector(c)}}; }

extern "C" void h_projection()
{
   Fixture F;
   const model::World &w = F.w;
   IrrotationalProjector P(F.h1, F.nd, 3);
   DivergenceFreeProjector Q(F.h1, F.nd, 3);
   Vector x, keep, p(F.ne), q(F.ne), t(F.ne);
   filled("x", x, F.ne);
   keep = x;
   filled("junk", p, F.ne);
   filled("junk", q, F.ne);
   P.Mult(x, p);
   same(x, keep, "projecting leaves the field alone");
   gradient(w, p, "the irrotational part is a gradient");
   double r[4];
   for (int i = 0; i < F.ne; ++i) { t(i) = x(i) - p(i); }
   weakdiv(w, t, r);
   for (int v = 0; v < w.nh; ++v) { if (!w.boundary[v]) { sym_assert_eq(r[v], 0.0, "what remains has no weak divergence"); } }
   Q.Mult(x, q);
   same(x, keep, "projecting leaves the field alone");
   same(q, t, "divergence-free part");
   Vector pp(F.ne), qq(F.ne);
   P.Mult(p, pp);
   same(pp, p, "the irrotational projection is idempotent");
   Q.Mult(q, qq);
   same(qq, q, "the divergence-free projection is idempotent");
   P.Mult(q, pp);
   for (int i = 0; i < F.ne; ++i) { sym_assert_eq(pp(i), 0.0, "a divergence-free field has no irrotational part"); }
   sym_reach("done");
}
// the mesh moves between two projections
extern "C" void h_moved()
{
   Fixture F;
   IrrotationalProjector P(F.h1, F.nd, 3);
   DivergenceFreeProjector Q(F.h1, F.nd, 3);
   Vector x, p(F.ne), q(F.ne), p2(F.ne), c(1);
   filled("x", x, F.ne);
   c = 0.0;
   P.Mult(x, p);
   Q.Mult(x, q);
   F.w.theta = R("theta2", 0, -1.0, 1.0);
   setInputs(P, moved(c));
   setInputs(Q, moved(c));
   P.Mult(x, p);
   Q.Mult(x, q);
   IrrotationalProjector N(F.h1, F.nd, 3);
   N.Mult(x, p2);
   same(p, p2, "projection on the mesh as it is now");
   for (int i = 0; i < F.ne; ++i) { sym_assert_eq(q(i), x(i) - p2(i), "divergence-free part on the mesh as it is now"); sym_observe("p", p(i)); sym_observe("q", q(i)); }
   setInputs(P, MISOInputs{{"other", 1.0}});
   P.Mult(x, p);
   same(p, p2, "other inputs change nothing");
   sym_reach("done");
}
template <class T> static void products(bool used)
{
   Fixture F;
   T P(F.h1, F.nd, 3);
   ModelFunction x(&F.nd), bar(&F.nd);
   Vector keep, kbar, y(F.ne), wb(F.ne), w0, mb(1), c(1);
   for (int i = 0; i < F.ne; ++i) { x(i) = R("x", i, -2.0, 2.0); bar(i) = R("bar", i, -2.0, 2.0); }
   keep = x;
   kbar = bar;
   filled("wb", wb, F.ne);
   w0 = wb;
   mb(0) = R("mb", 0, -2.0, 2.0);
   const double m0 = mb(0);
   c = 0.0;
   if (used)
   {
      // the operator was used on another mesh before
      const double th = F.w.theta;
      F.w.theta = R("theta2", 0, -1.0, 1.0);
      P.Mult(x, y);
      F.w.theta = th;
      setInputs(P, moved(c));
   }
   P.vectorJacobianProduct(x, bar, "in", wb);
   same(x, keep, "the product leaves the field alone");
   same(bar, kbar, "the product leaves the seed alone");
   if (used) { setInputs(P, moved(c)); }
   P.vectorJacobianProduct(x, bar, "mesh_coords", mb);
   same(x, keep, "the product leaves the field alone");
   same(bar, kbar, "the product leaves the seed alone");
   Vector none(wb);
   P.vectorJacobianProduct(x, bar, "no such input", none);
   same(none, wb, "nothing depends on other inputs");
   T N(F.h1, F.nd, 3);
   N.Mult(x, y);
   double J = 0.0;
   for (int i = 0; i < F.ne; ++i) { J += bar(i) * y(i); }
   for (int i = 0; i < F.ne; ++i) { sym_assert_eq(wb(i), w0(i) + sym_diff(J, x(i)), "product with respect to the field"); }
   sym_assert_eq(mb(0), m0 + sym_diff(J, F.w.theta), "product with respect to the mesh");
   sym_reach("done");
}
extern "C" void h_irrotational_products() { products<IrrotationalProjector>(sym_choice("used", 0, 0, 1)); }
extern "C" void h_div_free_products() { products<DivergenceFreeProjector>(sym_choice("used", 0, 0, 1)); }
