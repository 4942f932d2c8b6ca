// Fields transferred to an element-wise representation (L2 transfer operators):
// values and reverse products on two quadrilaterals or a tetrahedron.
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <mfem.hpp>
#include "elem.hpp"
#include "l2_transfer_operator.hpp"
#include "sym.h"
using namespace mfem;
using namespace miso;
namespace miso
{
FiniteElementVector::FiniteElementVector(mfem::ParMesh &mesh, mfem::ParFiniteElementSpace &space, std::string name)
 : mesh_(&mesh), coll_(std::make_unique<const ModelColl>()), space_(&space), gf(std::make_unique<mfem::ParGridFunction>(&space)), name_(std::move(name)) { }
}
static double R(const char *n, int i, double lo, double hi) { return sym_real_in(n, i, lo, hi); }
enum What { SCALAR, VECTOR, CURL, MAGNITUDE };
// two points; the shape functions are one at one of them and zero at the other
struct Points : FiniteElement
{
   explicit Points(int dim) : FiniteElement(dim, dim == 2 ? Geometry::SQUARE : Geometry::TETRAHEDRON, 2, 1)
   {
      map_type = VALUE;
      Nodes = IntegrationRule(2);
      for (int k = 0; k < 2; ++k)
      {
         IntegrationPoint &q = Nodes.IntPoint(k);
         q.x = k ? 0.5 : 0.125;
         q.y = k ? 0.25 : 0.5;
         q.z = dim == 3 ? (k ? 0.125 : 0.25) : 0.0;
         q.weight = 0.5;
      }
   }
   void CalcShape(const IntegrationPoint &ip, Vector &s) const override { s(1) = (ip.x - 0.125) / 0.375; s(0) = 1.0 - s(1); }
   void CalcDShape(const IntegrationPoint &, DenseMatrix &d) const override { d = 0.0; d(1, 0) = 1.0 / 0.375; d(0, 0) = -1.0 / 0.375; }
};
struct World
{
   int dim, ne, nn;   // nodes of the mesh
   ModelMesh mesh;
   ModelSpace nodes_fes, state_fes, out_fes;
   IsoparametricTransformation T[2];
   el::Quad quad;
   el::Tet tet;
   el::Edge edge;
   Points points;
   ModelDofTransformation tr{0.5, 2.0};
   FiniteElementState *x, *state, *out;
   std::unique_ptr<L2TransferOperator> op;
   World(int dim_, What what) : dim(dim_), ne(dim == 2 ? 2 : 1), nn(dim == 2 ? 6 : 4),
      nodes_fes(&mesh, dim), state_fes(&mesh, 1), out_fes(&mesh, what == SCALAR || what == MAGNITUDE ? 1 : dim), points(dim)
   {
      mesh.dim = dim;
      mesh.T = {&T[0], &T[1]};
      // nodes: true dofs are the local ones in reverse
      nodes_fes.nd = nn;
      if (dim == 2) { nodes_fes.el = {{&quad, {0, 1, 2, 3}}, {&quad, {1, 4, 5, 2}}}; }
      else { nodes_fes.el = {{&tet, {0, 1, 2, 3}}}; }
      reverse(nodes_fes);
      if (dim == 2)
      {
         // the second element has another sign for one it shares; the last local one is a copy of the first
         state_fes.nd = 7;
         state_fes.el = {{&quad, {0, 1, 2, 3}}, {&quad, {-1 - 1, 4, 5, 6}}};
         state_fes.ntrue = 6;
         state_fes.owner = {5, 4, 3, 2, 1, 0, 5};
      }
      else
      {
         const FiniteElement *fe = what == SCALAR ? (const FiniteElement *)&tet : &edge;
         state_fes.nd = fe->GetDof();
         state_fes.el = {{fe, {}}};
         for (int k = 0; k < state_fes.nd; ++k) { state_fes.el[0].dofs.push_back(k == 1 ? -1 - k : k); }
         reverse(state_fes);
         state_fes.transform = &tr;
      }
      out_fes.nd = 2 * ne;
      out_fes.el.clear();
      for (int e = 0; e < ne; ++e) { out_fes.el.push_back({&points, {2 * e + 1, 2 * e}}); }
      reverse(out_fes);
      // the constructor of the operator takes the space of the mesh nodes from the mesh
      x = new FiniteElementState(mesh, nodes_fes, "mesh_coords");
      mesh.nodes = &x->gridFunc();
      state = new FiniteElementState(mesh, state_fes, "state");
      out = new FiniteElementState(mesh, out_fes, "out");
      switch (what)
      {
      case SCALAR: op = std::make_unique<ScalarL2IdentityProjection>(*state, *x, *out); break;
      case VECTOR: op = std::make_unique<L2IdentityProjection>(*state, *x, *out); break;
      case CURL: op = std::make_unique<L2CurlProjection>(*state, *x, *out); break;
      case MAGNITUDE: op = std::make_unique<L2CurlMagnitudeProjection>(*state, *x, *out); break;
      }
   }
   static void reverse(ModelSpace &s)
   {
      s.ntrue = s.GetVSize();
      for (int i = 0; i < s.ntrue; ++i) { s.owner.push_back(s.ntrue - 1 - i); }
   }
   // the true number of a coordinate of a node
   int xt(int node, int d) const { return nodes_fes.owner[node + d * nn]; }
};
static void coordinates(const World &w, Vector &x)
{
   static const double q[6][2] = {{0, 0}, {1.25, 0.125}, {1, 1.125}, {-0.125, 0.875}, {2.25, 0}, {2.125, 1.25}};
   static const double t[4][3] = {{0, 0, 0}, {1.25, 0.125, -0.25}, {0.25, 1, 0.125}, {-0.125, 0.25, 0.875}};
   for (int n = 0; n < w.nn; ++n) { for (int d = 0; d < w.dim; ++d) { x(w.xt(n, d)) = w.dim == 2 ? q[n][d] : t[n][d]; } }
}
// what the definition says: out[e][point][component]
static void expected(const World &w, What what, const Vector &x, const Vector &u, double (*o)[2][3], bool root)
{
   for (int e = 0; e < w.ne; ++e)
   {
      const std::vector<int> &nd = w.nodes_fes.el[e].dofs, &sd = w.state_fes.el[e].dofs;
      double v[6];
      const int n = (int)sd.size();
      for (int k = 0; k < n; ++k) { const int l = sd[k] >= 0 ? sd[k] : -1 - sd[k]; v[k] = (sd[k] >= 0 ? 1.0 : -1.0) * u(w.state_fes.owner[l]); }
      if (w.state_fes.transform) { v[1] /= w.tr.b; v[0] -= w.tr.a * v[1]; }
      for (int p = 0; p < 2; ++p)
      {
         const IntegrationPoint &ip = w.points.GetNodes().IntPoint(p);
         double s[4], g[4][3] = {};
         if (w.dim == 2)
         {
            const double a = ip.x, b = ip.y;
            const double s2[4] = {(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b}, gx[4] = {-(1 - b), 1 - b, b, -b}, gy[4] = {-(1 - a), -a, a, 1 - a};
            for (int k = 0; k < 4; ++k) { s[k] = s2[k]; g[k][0] = gx[k]; g[k][1] = gy[k]; }
         }
         else
         {
            s[0] = 1 - ip.x - ip.y - ip.z; s[1] = ip.x; s[2] = ip.y; s[3] = ip.z;
            for (int d = 0; d < 3; ++d) { g[0][d] = -1.0; g[d + 1][d] = 1.0; }
         }
         double J[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 1}};
         for (int i = 0; i < w.dim; ++i) { for (int j = 0; j < w.dim; ++j) { for (int k = 0; k < 4; ++k) { J[i][j] += x(w.xt(nd[k], i)) * g[k][j]; } } }
         if (w.dim == 3) { J[2][2] -= 1.0; }
         double C[3][3], det = 0.0;   // cofactors
         for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { C[i][j] = J[(i + 1) % 3][(j + 1) % 3] * J[(i + 2) % 3][(j + 2) % 3] - J[(i + 1) % 3][(j + 2) % 3] * J[(i + 2) % 3][(j + 1) % 3]; } }
         for (int j = 0; j < 3; ++j) { det += J[0][j] * C[0][j]; }
         double r[3] = {0, 0, 0};
         if (what == SCALAR) { for (int k = 0; k < 4; ++k) { r[0] += s[k] * v[k]; } }
         else if (w.dim == 2)
         {
            double G[2] = {0, 0};
            for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { for (int k = 0; k < 4; ++k) { G[i] += C[i][j] * g[k][j] * v[k]; } } }
            r[0] = G[1]; r[1] = -G[0];
         }
         else
         {
            double V[3] = {0, 0, 0};   // in the reference element
            for (int k = 0; k < 6; ++k)
            {
               const int a = el::Edge::e(k)[0], b = el::Edge::e(k)[1];
               for (int d = 0; d < 3; ++d)
               {
                  const int p1 = (d + 1) % 3, p2 = (d + 2) % 3;
                  V[d] += v[k] * (what == VECTOR ? s[a] * g[b][d] - s[b] * g[a][d] : 2 * (g[a][p1] * g[b][p2] - g[a][p2] * g[b][p1]));
               }
            }
            for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { r[i] += (what == VECTOR ? C[i][j] : J[i][j]) * V[j]; } }
         }
         if (what == MAGNITUDE) { r[0] = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]; if (root) { r[0] = sqrt(r[0]); } else { r[0] /= det; } }
         if (what != SCALAR) { for (int c = 0; c < 3; ++c) { r[c] /= det; } }
         for (int c = 0; c < 3; ++c) { o[e][p][c] = r[c]; }
      }
   }
}
static int out_true(const World &w, int e, int p, int c) { return w.out_fes.owner[w.out_fes.el[e].dofs[p] + c * w.out_fes.nd]; }
static void values(int dim, What what)
{
   World w(dim, what);
   const int nu = w.state_fes.ntrue, nc = w.out_fes.vdim;
   Vector x(w.nodes_fes.ntrue), u(nu), r(w.out_fes.ntrue), r2(w.out_fes.ntrue);
   coordinates(w, x);
   for (int i = 0; i < nu; ++i) { u(i) = what == MAGNITUDE && i > 1 ? 0.25 * (i % 4) - 0.375 : R("u", i, -2.0, 2.0); }
   const int m = sym_choice("node", 0, 0, w.nn - 1), d = sym_choice("coordinate", 0, 0, dim - 1);
   x(w.xt(m, d)) += R("X", 0, -0.125, 0.125);
   // what was there before is no part of the result
   Vector u0(nu), x0(w.nodes_fes.ntrue);
   for (int i = 0; i < nu; ++i) { u0(i) = 0.5 - 0.25 * i; }
   coordinates(w, x0);
   x0 *= 1.25;
   calcOutput(*w.op, {{"state", u0}, {"mesh_coords", x0}}, r2);
   for (int i = 0; i < r.Size(); ++i) { r(i) = 7.0; }
   if (sym_choice("separately", 0, 0, 1)) { setInputs(*w.op, {{"mesh_coords", x}}); w.op->apply(u, r); }
   else { calcOutput(*w.op, {{"state", u}, {"mesh_coords", x}}, r); }
   double o[2][2][3];
   expected(w, what, x, u, o, false);
   sym_assert(getSize(*w.op) == r.Size(), "the size of the output");
   for (int e = 0; e < w.ne; ++e) { for (int p = 0; p < 2; ++p)
   {
      for (int c = 0; c < nc; ++c)
      {
         const double v = r(out_true(w, e, p, c));
         sym_observe("value", v);
         if (what == MAGNITUDE) { sym_assert(v >= 0.0, "a magnitude"); }
         sym_assert_near(what == MAGNITUDE ? v * v : v, o[e][p][c], 1e-9, "the transferred field has the value of the field at the point");
      }
   } }
   sym_reach("done");
}
static void products(int dim, What what)
{
   World w(dim, what);
   const int nu = w.state_fes.ntrue, nc = w.out_fes.vdim, no = w.out_fes.ntrue;
   Vector x(w.nodes_fes.ntrue), u(nu), b(no), r(no);
   coordinates(w, x);
   // a magnitude: one of the two at a time
   const int part = what == MAGNITUDE ? sym_choice("part", 0, 1, 2) : 3;
   const int k = part & 1 ? sym_choice("unknown", 0, 0, nu - 1) : 0;
   for (int i = 0; i < nu; ++i) { u(i) = 0.25 * ((3 * i) % 5) - 0.375; }
   if (part & 1) { u(k) = R("u", 0, -2.0, 2.0); }
   const int m = part & 2 ? sym_choice("node", 0, 0, w.nn - 1) : 0, d = part & 2 ? sym_choice("coordinate", 0, 0, dim - 1) : 0;
   const double X = part & 2 ? R("X", 0, -0.125, 0.125) : 0.0625;
   x(w.xt(m, d)) += X;
   const int one = part == 3 ? 0 : sym_choice("point", 0, 0, no - 1);
   for (int i = 0; i < no; ++i) { b(i) = part != 3 && i != one ? 0.0 : part != 3 || i < 2 ? R("b", i, -2.0, 2.0) : 0.5 * (i % 3) - 0.25; }
   Vector x0(x), u0(u);
   for (int i = 0; i < nu; ++i) { u0(i) = 1.0 - 0.5 * i; }
   x0 *= 1.5;
   setInputs(*w.op, {{"state", u0}, {"mesh_coords", x0}});
   setInputs(*w.op, {{"state", u}, {"mesh_coords", x}});
   double o[2][2][3], F = 0.0;
   expected(w, what, x, u, o, true);
   for (int e = 0; e < w.ne; ++e) { for (int p = 0; p < 2; ++p) { for (int c = 0; c < nc; ++c) { F += b(out_true(w, e, p, c)) * o[e][p][c]; } } }
   Vector ub(nu), xb(x.Size()), ob(no), other(2);
   ub = 0.5; xb = -0.25; ob = 0.125; other = 3.0;
   const int order = sym_choice("order", 0, 0, 1);
   for (int t = 0; t < 2; ++t)
   {
      if (t == order) { vectorJacobianProduct(*w.op, b, "state", ub); }
      else { vectorJacobianProduct(*w.op, b, "mesh_coords", xb); }
   }
   vectorJacobianProduct(*w.op, b, "out", ob);
   vectorJacobianProduct(*w.op, b, "something else", other);
   sym_observe("ub", ub(k));
   sym_observe("xb", xb(w.xt(m, d)));
   if (part & 1) sym_assert_near(ub(k), 0.5 + sym_diff(F, u(k)), 1e-9, "the product with the state");
   if (part & 2) sym_assert_near(xb(w.xt(m, d)), -0.25 + sym_diff(F, X), 1e-9, "the product with the mesh");
   for (int i = 0; i < no; ++i) { sym_assert_eq(ob(i), 0.125 - b(i), "the product with the output itself"); }
   sym_assert(other(0) == 3.0 && other(1) == 3.0, "nothing for other inputs");
   sym_reach("done");
}
extern "C" void h_scalar2() { values(2, SCALAR); }
extern "C" void h_scalar3() { values(3, SCALAR); }
extern "C" void h_vector3() { values(3, VECTOR); }
extern "C" void h_curl2() { values(2, CURL); }
extern "C" void h_curl3() { values(3, CURL); }
extern "C" void h_magnitude2() { values(2, MAGNITUDE); }
extern "C" void h_magnitude3() { values(3, MAGNITUDE); }
extern "C" void h_scalar2_products() { products(2, SCALAR); }
extern "C" void h_scalar3_products() { products(3, SCALAR); }
extern "C" void h_vector3_products() { products(3, VECTOR); }
extern "C" void h_curl2_products() { products(2, CURL); }
extern "C" void h_curl3_products() { products(3, CURL); }
extern "C" void h_magnitude2_products() { products(2, MAGNITUDE); }
extern "C" void h_magnitude3_products() { products(3, MAGNITUDE); }
