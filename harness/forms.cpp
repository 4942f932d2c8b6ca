// Nonlinear forms, linear forms and functional outputs of MISO: what they
// assemble and every product they offer, on the small mesh of shim_forms.
#include <cmath>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#include "miso_input.hpp"
#include "finite_element_state.hpp"
#include "sym.h"
using model_entity = mfem::model::Entity;
using model_kind = mfem::model::Kind;
namespace miso
{
// the parts of the vector of a finite element field the forms need
FiniteElementVector::FiniteElementVector(mfem::ParMesh &mesh, mfem::ParFiniteElementSpace &space, std::string name)
 : mesh_(&mesh), coll_(), space_(&space), gf(std::make_unique<mfem::ParGridFunction>(&space)), name_(std::move(name)) { }
FiniteElementVector::FiniteElementVector(FiniteElementVector &&o) noexcept
 : mesh_(o.mesh_), coll_(), space_(std::move(o.space_)), gf(std::move(o.gf)), name_(std::move(o.name_)) { }

static double weight(const model_entity &e, model_kind k) { return e.w * (1 + k); }
// a term of a residual: (p u_i u_j + f_i u_i) c, j the other dof of the entity
struct Term : mfem::NonlinearFormIntegrator
{
   explicit Term(double c_, const mfem::Vector &f_) : c(c_), f(&f_) { }
   double c, p = 0.5;
   int seen = 0;
   const mfem::Vector *f;
   double energy(const model_entity &e, model_kind k, const mfem::Vector &u) override
   {
      const int a = e.d[0], b = e.d[e.n - 1];
      return c * weight(e, k) * (p * u(a) * u(b) + (*f)(a) * u(a));
   }
   void vec(const model_entity &e, model_kind k, const mfem::Vector &u, double *o) override
   {
      for (int i = 0; i < e.n; ++i)
      {
         const int a = e.d[i], b = e.d[e.n - 1 - i];
         o[i] = c * weight(e, k) * (p * u(a) * u(b) + (*f)(a) * u(a));
      }
   }
   void grad(const model_entity &e, model_kind k, const mfem::Vector &u, double (*o)[2]) override
   {
      for (int i = 0; i < e.n; ++i)
      {
         const int j = e.n - 1 - i, a = e.d[i], b = e.d[j];
         for (int l = 0; l < e.n; ++l) { o[i][l] = 0.0; }
         o[i][i] += c * weight(e, k) * (p * u(b) + (*f)(a));
         o[i][j] += c * weight(e, k) * p * u(a);
      }
   }
};
// a term of a functional, its vector is the gradient of its energy
struct OutTerm : Term
{
   using Term::Term;
   void vec(const model_entity &e, model_kind k, const mfem::Vector &u, double *o) override
   {
      const int a = e.d[0], b = e.d[e.n - 1];
      o[0] = o[1] = 0.0;
      o[0] += c * weight(e, k) * (p * u(b) + (*f)(a));
      o[e.n - 1] += c * weight(e, k) * p * u(a);
   }
};
struct LoadTerm : mfem::LinearFormIntegrator
{
   explicit LoadTerm(double c_, const mfem::Vector &f_) : c(c_), f(&f_) { }
   double c, p = 0.5;
   int seen = 0;
   const mfem::Vector *f;
   void vec(const model_entity &e, model_kind k, double *o) override
   {
      for (int i = 0; i < e.n; ++i) { const double v = (*f)(e.d[i]); o[i] = c * weight(e, k) * (p * v + v * v); }
   }
};
template <typename T> static void optionsFor(T &t, const nlohmann::json &o) { if (o.contains("seen")) { t.seen = o["seen"].get<int>(); } }
void setInputs(Term &t, const MISOInputs &inputs) { setValueFromInputs(inputs, "p", t.p); }
void setInputs(OutTerm &t, const MISOInputs &inputs) { setValueFromInputs(inputs, "p", t.p); }
void setInputs(LoadTerm &t, const MISOInputs &inputs) { setValueFromInputs(inputs, "p", t.p); }
void setOptions(Term &t, const nlohmann::json &o) { optionsFor(t, o); }
void setOptions(OutTerm &t, const nlohmann::json &o) { optionsFor(t, o); }
void setOptions(LoadTerm &t, const nlohmann::json &o) { optionsFor(t, o); }
struct FieldSens : mfem::LinearFormIntegrator
{
   FieldSens(Term &t_, const mfem::Vector &u_, const mfem::Vector *a_) : t(t_), u(u_), a(a_) { }
   Term &t;
   const mfem::Vector &u, *a;
   void vec(const model_entity &e, model_kind k, double *o) override
   {
      o[0] = o[1] = 0.0;
      for (int i = 0; i < (a ? e.n : 1); ++i) { o[i] = t.c * weight(e, k) * u(e.d[i]) * (a ? (*a)(e.d[i]) : 1.0); }
   }
};
struct ScalarSens : mfem::NonlinearFormIntegrator
{
   ScalarSens(Term &t_, const mfem::Vector *a_) : t(t_), a(a_) { }
   Term &t;
   const mfem::Vector *a;
   double energy(const model_entity &e, model_kind k, const mfem::Vector &u) override
   {
      double r = 0.0;
      for (int i = 0; i < (a ? e.n : 1); ++i) { r += t.c * weight(e, k) * u(e.d[i]) * u(e.d[e.n - 1 - i]) * (a ? (*a)(e.d[i]) : 1.0); }
      return r;
   }
};
struct LoadFieldSens : mfem::LinearFormIntegrator
{
   LoadFieldSens(LoadTerm &t_, const mfem::Vector &a_) : t(t_), a(a_) { }
   LoadTerm &t;
   const mfem::Vector &a;
   void vec(const model_entity &e, model_kind k, double *o) override
   {
      for (int i = 0; i < e.n; ++i) { o[i] = t.c * weight(e, k) * (t.p + 2.0 * (*t.f)(e.d[i])) * a(e.d[i]); }
   }
};
struct LoadScalarSens : mfem::NonlinearFormIntegrator
{
   LoadScalarSens(LoadTerm &t_, const mfem::Vector &a_) : t(t_), a(a_) { }
   LoadTerm &t;
   const mfem::Vector &a;
   double energy(const model_entity &e, model_kind k, const mfem::Vector &) override
   {
      double r = 0.0;
      for (int i = 0; i < e.n; ++i) { r += t.c * weight(e, k) * (*t.f)(e.d[i]) * a(e.d[i]); }
      return r;
   }
};
using Fields = std::map<std::string, FiniteElementState>;
using Lin = std::map<std::string, mfem::ParLinearForm>;
using Non = std::map<std::string, mfem::ParNonlinearForm>;
using Marker = mfem::Array<int>;
static void put(mfem::ParLinearForm &l, mfem::ParNonlinearForm &n, mfem::LinearFormIntegrator *a, mfem::NonlinearFormIntegrator *b, model_kind k, Marker *m)
{
   if (k == mfem::model::DOMAIN_) { if (m) { l.AddDomainIntegrator(a, *m); n.AddDomainIntegrator(b, *m); } else { l.AddDomainIntegrator(a); n.AddDomainIntegrator(b); } }
   if (k == mfem::model::INTERIOR) { l.AddInteriorFaceIntegrator(a); n.AddInteriorFaceIntegrator(b); }
   if (k == mfem::model::BDRFACE) { if (m) { l.AddBdrFaceIntegrator(a, *m); n.AddBdrFaceIntegrator(b, *m); } else { l.AddBdrFaceIntegrator(a); n.AddBdrFaceIntegrator(b); } }
   if (k == mfem::model::BOUNDARY) { if (m) { l.AddBoundaryIntegrator(a, *m); n.AddBoundaryIntegrator(b, *m); } else { l.AddBoundaryIntegrator(a); n.AddBoundaryIntegrator(b); } }
   if (k == mfem::model::INTERNAL) { if (m) { l.AddInternalBoundaryFaceIntegrator(a, *m); n.AddInternalBoundaryFaceIntegrator(b, *m); } else { l.AddInternalBoundaryFaceIntegrator(a); n.AddInternalBoundaryFaceIntegrator(b); } }
}
static void reg(Term &t, Fields &f, Lin &rs, Non &rss, model_kind k, Marker *m, const std::string &adj)
{
   rs.emplace("field", &f.at("field").space());
   rss.emplace("p", &f.at("state").space());
   put(rs.at("field"), rss.at("p"), new FieldSens(t, f.at("state").gridFunc(), &f.at(adj).gridFunc()), new ScalarSens(t, &f.at(adj).gridFunc()), k, m);
}
static void reg(LoadTerm &t, Fields &f, Lin &rs, Non &rss, model_kind k, Marker *m, const std::string &adj)
{
   rs.emplace("field", &f.at("field").space());
   rss.emplace("p", &f.at("state").space());
   put(rs.at("field"), rss.at("p"), new LoadFieldSens(t, f.at(adj).gridFunc()), new LoadScalarSens(t, f.at(adj).gridFunc()), k, m);
}
static void reg(OutTerm &t, Fields &f, Lin &os, Non &oss, model_kind k, Marker *m, const std::string &st)
{
   os.emplace("field", &f.at("field").space());
   oss.emplace("p", &f.at("state").space());
   put(os.at("field"), oss.at("p"), new FieldSens(t, f.at(st).gridFunc(), nullptr), new ScalarSens(t, nullptr), k, m);
}
#define SENS(T) \
   void addDomainSensitivityIntegrator(T &t, Fields &f, Lin &rs, Non &rss, Lin &, Non &, Marker *m, std::string adj) { reg(t, f, rs, rss, mfem::model::DOMAIN_, m, adj); } \
   void addInteriorFaceSensitivityIntegrator(T &t, Fields &f, Lin &rs, Non &rss, Lin &, Non &, std::string adj) { reg(t, f, rs, rss, mfem::model::INTERIOR, nullptr, adj); } \
   void addBdrSensitivityIntegrator(T &t, Fields &f, Lin &rs, Non &rss, Lin &, Non &, Marker *m, std::string adj) { reg(t, f, rs, rss, t.faces, m, adj); } \
   void addInternalBoundarySensitivityIntegrator(T &t, Fields &f, Lin &rs, Non &rss, Lin &, Non &, Marker *m, std::string adj) { reg(t, f, rs, rss, mfem::model::INTERNAL, m, adj); }
struct TestTerm : Term { using Term::Term; model_kind faces = mfem::model::BDRFACE; };
struct TestLoad : LoadTerm { using LoadTerm::LoadTerm; model_kind faces = mfem::model::BDRFACE; };
SENS(TestTerm)
SENS(TestLoad)
void addDomainSensitivityIntegrator(OutTerm &t, Fields &f, Lin &os, Non &oss, Marker *m, std::string st) { reg(t, f, os, oss, mfem::model::DOMAIN_, m, st); }
void addInteriorFaceSensitivityIntegrator(OutTerm &t, Fields &f, Lin &os, Non &oss, std::string st) { reg(t, f, os, oss, mfem::model::INTERIOR, nullptr, st); }
void addBdrSensitivityIntegrator(OutTerm &t, Fields &f, Lin &os, Non &oss, Marker *m, std::string st) { reg(t, f, os, oss, mfem::model::BDRFACE, m, st); }
void addInternalBoundarySensitivityIntegrator(OutTerm &t, Fields &f, Lin &os, Non &oss, Marker *m, std::string st) { reg(t, f, os, oss, mfem::model::INTERNAL, m, st); }
void setInputs(TestTerm &t, const MISOInputs &i) { setInputs(static_cast<Term &>(t), i); }
void setInputs(TestLoad &t, const MISOInputs &i) { setInputs(static_cast<LoadTerm &>(t), i); }
void setOptions(TestTerm &t, const nlohmann::json &o) { optionsFor(t, o); }
void setOptions(TestLoad &t, const nlohmann::json &o) { optionsFor(t, o); }
}  // namespace miso
#include "miso_nonlinearform.hpp"
#include "miso_linearform.hpp"
#include "functional_output.hpp"
using namespace mfem;
using namespace miso;
enum { N = 3, M = 4 };
static double R(const char *n, int i, double lo = -2.0, double hi = 2.0) { return sym_real_in(n, i, lo, hi); }
static void filled(const char *n, Vector &v, int k = N) { v.SetSize(k); for (int i = 0; i < k; ++i) { v(i) = R(n, i); } }

struct World
{
   ModelMesh mesh;
   ModelSpace fes;
   std::map<std::string, FiniteElementState> fields;
   World() : fes(&mesh)
   {
      // a chain of three elements; the last node is the copy of the first
      mesh.el = {{1, 2, {0, 1}, 1.0}, {2, 2, {1, 2}, 1.25}, {3, 2, {2, 3}, 1.5}};
      mesh.interior = {{1, 1, {1, 1}, 2.0}, {1, 1, {2, 2}, 2.25}};
      mesh.internal = {{1, 1, {1, 1}, 3.0}, {2, 1, {2, 2}, 3.25}};
      mesh.bdr = {{1, 1, {0, 0}, 4.0}, {2, 1, {2, 2}, 4.25}};
      for (int i = 1; i <= 3; ++i) { mesh.attributes.Append(i); }
      for (int i = 1; i <= 2; ++i) { mesh.bdr_attributes.Append(i); }
      for (const char *n : {"state", "field"}) { fields.emplace(n, FiniteElementState(mesh, fes, n)); }
   }
};
// which integrators there are: one on all elements, and another
enum Second { DOM_SOME, INTER, BDR, BDR_SOME, INT, INT_SOME, BND, BND_SOME };
struct Pick
{
   Second s;
   std::vector<int> attr;
   bool in(const model_entity &e) const
   {
      if (s != DOM_SOME && s != BDR_SOME && s != INT_SOME && s != BND_SOME) { return true; }
      for (int a : attr) { if (a == e.attr) { return true; } }
      return false;
   }
   model_kind kind() const { return s == DOM_SOME ? model::DOMAIN_ : s == INTER ? model::INTERIOR : s == BDR || s == BDR_SOME ? model::BDRFACE : s == INT || s == INT_SOME ? model::INTERNAL : model::BOUNDARY; }
};
static std::vector<int> attributes(int max)
{
   switch (sym_choice("attributes", 0, 0, max == 3 ? 3 : 2))
   {
   case 0: return {1};
   case 1: return {2};
   case 2: return {2, 1};
   default: return {3};
   }
}
// f(entity, kind, which of the two integrators) for each contribution
template <typename F> static void contributions(const World &w, const Pick &p, F f)
{
   for (const auto &e : w.mesh.el) { f(e, model::DOMAIN_, 0); }
   for (const auto &e : w.mesh.entities(p.kind())) { if (p.in(e)) { f(e, p.kind(), 1); } }
}
static int tr(int l) { return l == 3 ? 0 : l; }

struct Essential
{
   nlohmann::json options;
   bool e[N] = {false, false, false};
   Essential()
   {
      const int k = sym_choice("essential", 0, 0, 3);
      options["seen"] = 7;
      if (k == 1) { options["bcs"]["essential"] = std::vector<int>{1}; }
      if (k == 2) { options["bcs"]["essential"] = std::vector<int>{2}; }
      if (k == 3) { options["bcs"]["essential"] = "all"; }
      e[0] = k & 1;
      e[2] = k & 2;
   }
};
struct Catch : Solver
{
   Catch() : Solver(N) { }
   void SetOperator(const Operator &o) override { op = &o; }
   void Mult(const Vector &, Vector &) const override { }
   const Operator *op = nullptr;
};
static void residual(bool dirichlet)
{
   World w;
   Vector u, f, bc, v, rb, r0, s0;
   filled("u", u);
   filled("f", f);
   filled("v", v);
   filled("rb", rb);
   filled("r0", r0);
   filled("s0", s0);
   double p = R("p", 0, -1.0, 1.0);
   if (dirichlet)
   {
      filled("bc", bc);
      w.fields.emplace("dirichlet_bc", FiniteElementState(w.mesh, w.fes, "dirichlet_bc"));
   }
   Pick k;
   k.s = (Second)sym_choice("second", 0, DOM_SOME, INT_SOME);
   MISONonlinearForm form(w.fes, w.fields);
   const double c[2] = {1.0, -0.75};
   TestTerm *t[2] = {new TestTerm(c[0], w.fields.at("field").gridFunc()), new TestTerm(c[1], w.fields.at("field").gridFunc())};
   form.addDomainIntegrator(t[0]);
   if (k.s == DOM_SOME) { k.attr = attributes(3); form.addDomainIntegrator(t[1], k.attr); }
   if (k.s == INTER) { form.addInteriorFaceIntegrator(t[1]); }
   if (k.s == BDR) { form.addBdrFaceIntegrator(t[1]); }
   if (k.s == BDR_SOME) { k.attr = attributes(2); form.addBdrFaceIntegrator(t[1], k.attr); }
   if (k.s == INT) { form.addInternalBoundaryFaceIntegrator(t[1]); }
   if (k.s == INT_SOME) { k.attr = attributes(2); form.addInternalBoundaryFaceIntegrator(t[1], k.attr); }
   Essential ess;
   setOptions(form, ess.options);
   sym_assert(t[0]->seen == 7 && t[1]->seen == 7, "options reach every integrator");
   sym_assert(getSize(form) == N, "size of the form");
   MISOInputs in{{"state", InputVector(u)}, {"field", InputVector(f)}, {"p", p}};
   if (dirichlet) { in["dirichlet_bc"] = InputVector(bc); }
   setInputs(form, in);
   Vector r(N);
   r = 9.0;
   evaluate(form, in, r);
   sym_observe("r", r(0));
   double want[N] = {0.0, 0.0, 0.0}, energy = 0.0;
   contributions(w, k, [&](const model_entity &e, model_kind kind, int i)
   {
      const double W = c[i] * e.w * (1 + kind);
      for (int a = 0; a < e.n; ++a)
      {
         const int d = tr(e.d[a]), o = tr(e.d[e.n - 1 - a]);
         const double val = W * (p * u(d) * u(o) + f(d) * u(d));
         want[d] += val;
         if (a == 0) { energy += val; }
      }
   });
   for (int i = 0; i < N; ++i) { if (ess.e[i]) { want[i] = dirichlet ? u(i) - bc(i) : 0.0; } }
   for (int i = 0; i < N; ++i) { sym_assert_eq(r(i), want[i], "the residual is the sum of its terms"); }
   sym_assert_eq(calcFormOutput(form, in), energy, "the energy is the sum of its terms");
   // products at the state given
   linearize(form, in);
   Vector rd(r0), sb(s0);
   jacobianVectorProduct(form, v, "state", rd);
   vectorJacobianProduct(form, rb, "state", sb);
   for (int i = 0; i < N; ++i)
   {
      double jv = 0.0, jt = 0.0;
      for (int j = 0; j < N; ++j)
      {
         jv += sym_diff(r(i), u(j)) * v(j);
         jt += sym_diff(r(j), u(i)) * rb(j);
      }
      sym_assert_near(rd(i), r0(i) + jv, 1e-9, "forward product with the state");
      sym_assert_near(sb(i), s0(i) + jt, 1e-9, "reverse product with the state");
   }
   Vector fb(s0);
   vectorJacobianProduct(form, rb, "field", fb);
   double pt = 0.0;
   for (int i = 0; i < N; ++i)
   {
      double jt = 0.0;
      for (int j = 0; j < N; ++j) { jt += sym_diff(r(j), f(i)) * rb(j); }
      sym_assert_near(fb(i), s0(i) + jt, 1e-9, "reverse product with a field");
      pt += sym_diff(r(i), p) * rb(i);
   }
   sym_assert_near(vectorJacobianProduct(form, rb, "p"), pt, 1e-9, "reverse product with a scalar");
   Vector none(s0);
   vectorJacobianProduct(form, rb, "nothing", none);
   for (int i = 0; i < N; ++i) { sym_assert_eq(none(i), s0(i), "an input the form does not depend on"); }
   sym_assert_eq(vectorJacobianProduct(form, rb, "nothing"), 0.0, "an input the form does not depend on");
   if (dirichlet)
   {
      Vector bb(s0), bd(r0);
      jacobianVectorProduct(form, v, "dirichlet_bc", bd);
      for (int i = 0; i < N; ++i) { sym_assert_near(bd(i), r0(i) + (ess.e[i] ? -v(i) : 0.0), 1e-9, "forward product with the boundary values"); }
      vectorJacobianProduct(form, rb, "dirichlet_bc", bb);
      for (int i = 0; i < N; ++i) { sym_assert_near(bb(i), s0(i) + (ess.e[i] ? -rb(i) : 0.0), 1e-9, "reverse product with the boundary values"); }
   }
   // the matrix the linear solver gets, and its transpose
   Operator &J = getJacobian(form, in, "state");
   Vector a(N), b(N);
   J.Mult(v, a);
   Catch adj;
   Vector state_bar(s0), adjoint(r0);
   setUpAdjointSystem(form, adj, in, state_bar, adjoint);
   adj.op->Mult(v, b);
   for (int i = 0; i < N; ++i)
   {
      double jv = 0.0, jt = 0.0;
      for (int j = 0; j < N; ++j)
      {
         if (ess.e[i] || ess.e[j]) { jv += i == j ? v(j) : 0.0; jt += i == j ? v(j) : 0.0; }
         else { jv += sym_diff(r(i), u(j)) * v(j); jt += sym_diff(r(j), u(i)) * v(j); }
      }
      sym_assert_near(a(i), jv, 1e-9, "Jacobian with essential unknowns eliminated");
      sym_assert_near(b(i), jt, 1e-9, "the adjoint system is the transpose");
      sym_assert_eq(state_bar(i), ess.e[i] ? 0.0 : s0(i), "right-hand side of the adjoint system");
      sym_assert_eq(adjoint(i), ess.e[i] ? 0.0 : r0(i), "start of the adjoint solution");
   }
   for (int i = 0; i < N; ++i) { sym_assert_eq(u(i), R("u", i), "the state is left alone"); sym_assert_eq(rb(i), R("rb", i), "the adjoint is left alone"); }
   sym_reach("done");
}
extern "C" void h_residual() { residual(false); }
extern "C" void h_dirichlet() { residual(true); }

// linearising again, at another state and other inputs
extern "C" void h_relinearize()
{
   World w;
   Vector u, u1, f, v, rb;
   filled("u", u);
   filled("u1", u1);
   filled("f", f);
   filled("v", v);
   filled("rb", rb);
   double p = R("p", 0, -1.0, 1.0);
   MISONonlinearForm form(w.fes, w.fields);
   form.addDomainIntegrator(new TestTerm(1.0, w.fields.at("field").gridFunc()));
   Essential ess;
   setOptions(form, ess.options);
   MISOInputs first{{"state", InputVector(u1)}, {"field", InputVector(f)}, {"p", 0.25}};
   MISOInputs in{{"state", InputVector(u)}, {"field", InputVector(f)}, {"p", p}};
   linearize(form, first);
   linearize(form, in);
   Vector r(N), rd(N), sb(N), b(N);
   evaluate(form, in, r);
   sym_observe("r", r(0));
   rd = sb = 0.0;
   jacobianVectorProduct(form, v, "state", rd);
   vectorJacobianProduct(form, rb, "state", sb);
   getJacobianTranspose(form, in, "state").Mult(v, b);
   for (int i = 0; i < N; ++i)
   {
      double jv = 0.0, jt = 0.0, kt = 0.0;
      for (int j = 0; j < N; ++j)
      {
         jv += sym_diff(r(i), u(j)) * v(j);
         jt += sym_diff(r(j), u(i)) * rb(j);
         kt += ess.e[i] || ess.e[j] ? (i == j ? v(j) : 0.0) : sym_diff(r(j), u(i)) * v(j);
      }
      sym_assert_near(rd(i), jv, 1e-9, "forward product at the second state");
      sym_assert_near(sb(i), jt, 1e-9, "reverse product at the second state");
      sym_assert_near(b(i), kt, 1e-9, "transpose at the second state");
   }
   sym_reach("done");
}

extern "C" void h_linear()
{
   World w;
   Vector f, rb, r0, s0;
   filled("f", f);
   filled("rb", rb);
   filled("r0", r0);
   filled("s0", s0);
   double p = R("p", 0, -1.0, 1.0);
   MISOLinearForm form(w.fes, w.fields);
   Pick k;
   k.s = (Second)sym_choice("second", 0, DOM_SOME, BND_SOME);
   sym_assume(k.s != INTER);
   const double c[2] = {1.0, -0.75};
   TestLoad *t[2] = {new TestLoad(c[0], w.fields.at("field").gridFunc()), new TestLoad(c[1], w.fields.at("field").gridFunc())};
   form.addDomainIntegrator(t[0]);
   if (k.kind() == model::BOUNDARY) { t[1]->faces = model::BOUNDARY; }
   if (k.s == DOM_SOME) { k.attr = attributes(3); form.addDomainIntegrator(t[1], k.attr); }
   if (k.s == BDR) { form.addBdrFaceIntegrator(t[1]); }
   if (k.s == BDR_SOME) { k.attr = attributes(2); form.addBdrFaceIntegrator(t[1], k.attr); }
   if (k.s == INT) { form.addInternalBoundaryFaceIntegrator(t[1]); }
   if (k.s == INT_SOME) { k.attr = attributes(2); form.addInternalBoundaryFaceIntegrator(t[1], k.attr); }
   if (k.s == BND) { form.addBoundaryIntegrator(t[1]); }
   if (k.s == BND_SOME) { k.attr = attributes(2); form.addBoundaryIntegrator(t[1], k.attr); }
   Essential ess;
   setOptions(form, ess.options);
   sym_assert(t[0]->seen == 7 && t[1]->seen == 7, "options reach every integrator");
   sym_assert(getSize(form) == N, "size of the form");
   MISOInputs in{{"field", InputVector(f)}, {"p", p}};
   setInputs(form, in);
   Vector r(r0), l(N);
   l = 0.0;
   addLoad(form, l);
   sym_observe("l", l(0));
   addLoad(form, r);
   double want[N] = {0.0, 0.0, 0.0};
   contributions(w, k, [&](const model_entity &e, model_kind kind, int i)
   {
      for (int a = 0; a < e.n; ++a) { const int d = tr(e.d[a]); want[d] += c[i] * e.w * (1 + kind) * (p * f(d) + f(d) * f(d)); }
   });
   for (int i = 0; i < N; ++i)
   {
      if (ess.e[i]) { want[i] = 0.0; }
      sym_assert_eq(l(i), want[i], "the load is the sum of its terms");
      sym_assert_eq(r(i), r0(i) + want[i], "the load is added");
   }
   Vector fb(s0);
   vectorJacobianProduct(form, rb, "field", fb);
   double pt = 0.0;
   for (int i = 0; i < N; ++i)
   {
      double jt = 0.0;
      for (int j = 0; j < N; ++j) { jt += sym_diff(l(j), f(i)) * rb(j); }
      sym_assert_near(fb(i), s0(i) + jt, 1e-9, "reverse product with a field");
      pt += sym_diff(l(i), p) * rb(i);
   }
   sym_assert_near(vectorJacobianProduct(form, rb, "p"), pt, 1e-9, "reverse product with a scalar");
   Vector none(s0);
   vectorJacobianProduct(form, rb, "nothing", none);
   for (int i = 0; i < N; ++i) { sym_assert_eq(none(i), s0(i), "an input the form does not depend on"); sym_assert_eq(rb(i), R("rb", i), "the adjoint is left alone"); }
   sym_assert_eq(vectorJacobianProduct(form, rb, "nothing"), 0.0, "an input the form does not depend on");
   sym_reach("done");
}

static void functional(const char *state)
{
   World w;
   if (std::string(state) != "state") { w.fields.emplace(state, FiniteElementState(w.mesh, w.fes, state)); }
   Vector u, f, v, g, s0;
   filled("u", u);
   filled("f", f);
   filled("v", v);
   filled("g", g);
   filled("s0", s0);
   double p = R("p", 0, -1.0, 1.0), ob = R("ob", 0), pd = R("pd", 0);
   FunctionalOutput out(w.fes, w.fields, state);
   Pick k;
   k.s = (Second)sym_choice("second", 0, DOM_SOME, INT_SOME);
   const double c[2] = {1.0, -0.75};
   OutTerm *t[2] = {new OutTerm(c[0], w.fields.at("field").gridFunc()), new OutTerm(c[1], w.fields.at("field").gridFunc())};
   out.addOutputDomainIntegrator(t[0]);
   if (k.s == DOM_SOME) { k.attr = attributes(3); out.addOutputDomainIntegrator(t[1], k.attr); }
   if (k.s == INTER) { out.addOutputInteriorFaceIntegrator(t[1]); }
   if (k.s == BDR) { out.addOutputBdrFaceIntegrator(t[1]); }
   if (k.s == BDR_SOME) { k.attr = attributes(2); out.addOutputBdrFaceIntegrator(t[1], k.attr); }
   if (k.s == INT) { out.addInternalBoundaryFaceIntegrator(t[1]); }
   if (k.s == INT_SOME) { k.attr = attributes(2); out.addInternalBoundaryFaceIntegrator(t[1], k.attr); }
   nlohmann::json o;
   o["seen"] = 7;
   if (sym_choice("again", 0, 0, 1))   // attributes may be given anew
   {
      o["attributes"] = std::vector<int>{2};
      if (!k.attr.empty()) { k.attr = {2}; }
   }
   setOptions(out, o);
   sym_assert(t[0]->seen == 7 && t[1]->seen == 7, "options reach every integrator");
   MISOInputs in{{state, InputVector(u)}, {"field", InputVector(f)}, {"p", p}};
   const double J = calcOutput(out, in);
   double want = 0.0;
   contributions(w, k, [&](const model_entity &e, model_kind kind, int i)
   {
      const int a = tr(e.d[0]), b = tr(e.d[e.n - 1]);
      want += c[i] * e.w * (1 + kind) * (p * u(a) * u(b) + f(a) * u(a));
   });
   sym_observe("J", J);
   sym_assert_eq(J, want, "the output is the sum of its terms");
   Vector du(N), df(N), ub(s0), fb(s0), obv(1), pdv(1);
   obv(0) = ob;
   pdv(0) = pd;
   calcOutputPartial(out, state, in, du);
   calcOutputPartial(out, "field", in, df);
   vectorJacobianProduct(out, obv, state, ub);
   vectorJacobianProduct(out, obv, "field", fb);
   double ju = 0.0, jf = 0.0;
   for (int i = 0; i < N; ++i)
   {
      const double a = sym_diff(J, u(i)), b = sym_diff(J, f(i));
      ju += a * v(i);
      jf += b * g(i);
      sym_assert_near(du(i), a, 1e-9, "partial derivative with respect to the state");
      sym_assert_near(df(i), b, 1e-9, "partial derivative with respect to a field");
      sym_assert_near(ub(i), s0(i) + ob * a, 1e-9, "reverse product with the state");
      sym_assert_near(fb(i), s0(i) + ob * b, 1e-9, "reverse product with a field");
   }
   sym_assert_near(jacobianVectorProduct(out, v, state), ju, 1e-9, "forward product with the state");
   sym_assert_near(jacobianVectorProduct(out, g, "field"), jf, 1e-9, "forward product with a field");
   const double jp = sym_diff(J, p);
   sym_assert_near(jacobianVectorProduct(out, pdv, "p"), jp * pd, 1e-9, "forward product with a scalar");
   sym_assert_near(vectorJacobianProduct(out, obv, "p"), jp * ob, 1e-9, "reverse product with a scalar");
   sym_assert_near(vectorJacobianProduct(out, obv, "p:part"), jp * ob, 1e-9, "reverse product with a qualified scalar");
   for (int i = 0; i < N; ++i) { sym_assert_eq(u(i), R("u", i), "the state is left alone"); }
   sym_reach("done");
}
extern "C" void h_functional() { functional("state"); }
extern "C" void h_functional_named() { functional("flux"); }
