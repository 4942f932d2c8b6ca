// The outputs made of one or two functionals: volume, mass, averages and
// induced-exponential aggregates, with every product they offer.
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#include "mfem_common_integ.hpp"
#include "common_outputs.hpp"
#include "sym.h"
using namespace mfem;
using namespace miso;
namespace miso
{
FiniteElementVector::FiniteElementVector(mfem::ParMesh &mesh, mfem::ParFiniteElementSpace &space, std::string name)
 : mesh_(&mesh), coll_(), space_(&space), gf(std::make_unique<mfem::ParGridFunction>(&space)), name_(std::move(name)) { }
FiniteElementVector::FiniteElementVector(FiniteElementVector &&o) noexcept
 : mesh_(o.mesh_), coll_(), space_(std::move(o.space_)), gf(std::move(o.gf)), name_(std::move(o.name_)) { }
// what src/common/coefficient.cpp defines, not used by the density below
using TR = mfem::ElementTransformation;
using IP = mfem::IntegrationPoint;
void StateCoefficient::EvalRevDiff(double, TR &, const IP &, double, mfem::DenseMatrix &) { }
double MeshDependentCoefficient::Eval(TR &, const IP &) { return 0.0; }
double MeshDependentCoefficient::Eval(TR &, const IP &, double) { return 0.0; }
double MeshDependentCoefficient::EvalStateDeriv(TR &, const IP &, double) { return 0.0; }
double MeshDependentCoefficient::EvalState2ndDeriv(TR &, const IP &, const double) { return 0.0; }
void MeshDependentCoefficient::EvalRevDiff(double, TR &, const IP &, mfem::DenseMatrix &) { }
void MeshDependentCoefficient::EvalRevDiff(double, TR &, const IP &, double, mfem::DenseMatrix &) { }
// the density of a material with a fill factor, and its derivative
struct Density : MeshDependentCoefficient, ModelDensity
{
   explicit Density(bool d) : deriv(d) { }
   void setInputs(const MISOInputs &i) override { setValueFromInputs(i, "fill_factor", q); }
   double density() const override { return deriv ? 2.0 * q : 2.0 + q * q; }
   bool deriv;
   double q = 0.5;
};
std::unique_ptr<MeshDependentCoefficient> constructMaterialCoefficient(const std::string &n, const nlohmann::json &, const nlohmann::json &, double) { return std::make_unique<Density>(n == "drho_df"); }
}  // namespace miso
enum { N = 3 };
static double R(const char *n, int i, double lo = -0.25, double hi = 0.25) { return sym_real_in(n, i, lo, hi); }
static void filled(const char *n, Vector &v) { v.SetSize(N); for (int i = 0; i < N; ++i) { v(i) = R(n, i); } }
struct World
{
   ModelMesh mesh;
   ModelSpace fes;
   std::map<std::string, FiniteElementState> fields;
   Vector u, x, du, dx, s0, ob{1};
   nlohmann::json options = nlohmann::json::object();
   std::vector<int> attr;
   MISOInputs in;
   World() : fes(&mesh)
   {
      mesh.el = {{1, 2, {0, 1}, 1.0}, {2, 2, {1, 2}, 1.25}, {3, 2, {2, 3}, 1.5}};
      mesh.bdr = {{1, 1, {0, 0}, 4.0}};
      for (int i = 1; i <= 3; ++i) { mesh.attributes.Append(i); }
      mesh.bdr_attributes.Append(1);
      for (const char *n : {"state", "mesh_coords"}) { fields.emplace(n, FiniteElementState(mesh, fes, n)); }
      filled("u", u);
      filled("x", x);
      filled("du", du);
      filled("dx", dx);
      filled("s0", s0);
      ob(0) = R("ob", 0, -2.0, 2.0);
      const int a = sym_choice("attributes", 0, 0, 2);
      if (a) { attr = a == 1 ? std::vector<int>{2} : std::vector<int>{3, 1}; options["attributes"] = attr; }
      options["rho"] = 3.0;
      in = MISOInputs{{"state", InputVector(u)}, {"mesh_coords", InputVector(x)}};
   }
   double total(const ModelOutput &o) const   // the integral
   {
      double r = 0.0;
      for (const auto &e : mesh.el)
      {
         bool on = attr.empty();
         for (int a : attr) { on = on || a == e.attr; }
         const int i = e.d[0] == 3 ? 0 : e.d[0], j = e.d[1] == 3 ? 0 : e.d[1];
         if (on) { r += e.w * (o.a0 + o.a1 * u(i) * u(j) + o.a2 * u(j)) * (1.0 + x(i) * (2.0 + x(j))); }
      }
      return r;
   }
};
template <typename Out> static void derivatives(World &w, Out &out, double J)
{
   setInputs(out, w.in);
   Vector ub(w.s0), xb(w.s0);
   vectorJacobianProduct(out, w.ob, "state", ub);
   vectorJacobianProduct(out, w.ob, "mesh_coords", xb);
   double ju = 0.0, jx = 0.0;
   for (int i = 0; i < N; ++i)
   {
      const double a = sym_diff(J, w.u(i)), b = sym_diff(J, w.x(i));
      ju += a * w.du(i);
      jx += b * w.dx(i);
      sym_assert_near(ub(i), w.s0(i) + w.ob(0) * a, 1e-9, "reverse product with the state");
      sym_assert_near(xb(i), w.s0(i) + w.ob(0) * b, 1e-9, "reverse product with the mesh");
   }
   sym_assert_near(jacobianVectorProduct(out, w.du, "state"), ju, 1e-9, "forward product with the state");
   sym_assert_near(jacobianVectorProduct(out, w.dx, "mesh_coords"), jx, 1e-9, "forward product with the mesh");
}
template <typename Out> static void quotient(World &w, Out &out, const ModelOutput &num, const ModelOutput &den)
{
   const double J = calcOutput(out, w.in);
   sym_assert_near(J, w.total(num) / w.total(den), 1e-9, "the output is the quotient of its integrals");
   sym_assert(getSize(out) == 1, "an output is one number");
   sym_observe("J", J);
   derivatives(w, out, J);
   sym_reach("done");
}
extern "C" void h_average() { World w; StateAverageFunctional o(w.fes, w.fields, w.options); quotient(w, o, StateIntegrator(), VolumeIntegrator()); }
extern "C" void h_average_all() { World w; w.attr.clear(); StateAverageFunctional o(w.fes, w.fields); quotient(w, o, StateIntegrator(), VolumeIntegrator()); }
extern "C" void h_curl_average() { World w; AverageMagnitudeCurlState o(w.fes, w.fields, w.options); quotient(w, o, MagnitudeCurlStateIntegrator(), VolumeIntegrator()); }
extern "C" void h_aggregate() { World w; IEAggregateFunctional o(w.fes, w.fields, w.options); quotient(w, o, IEAggregateIntegratorNumerator(3.0), IEAggregateIntegratorDenominator(3.0)); }
extern "C" void h_curl_aggregate() { World w; IECurlMagnitudeAggregateFunctional o(w.fes, w.fields, w.options); quotient(w, o, IECurlMagnitudeAggregateIntegratorNumerator(3.0), IECurlMagnitudeAggregateIntegratorDenominator(3.0)); }
extern "C" void h_volume()
{
   World w;
   VolumeFunctional o(w.fields, w.options);
   const double J = calcOutput(o, w.in);
   sym_assert_eq(J, w.total(VolumeIntegrator()), "the volume");
   sym_observe("J", J);
   derivatives(w, o, J);
   sym_reach("done");
}
extern "C" void h_mass()
{
   World w;
   double q = R("q", 0);
   w.in["fill_factor"] = q;
   MassFunctional o(w.fields, nlohmann::json::object(), nlohmann::json::object(), w.options);
   const double J = calcOutput(o, w.in);
   sym_assert_eq(J, w.total(VolumeIntegrator()) * (2.0 + q * q), "the mass");
   sym_observe("J", J);
   derivatives(w, o, J);
   sym_assert_near(vectorJacobianProduct(o, w.ob, "fill_factor"), w.ob(0) * sym_diff(J, q), 1e-9, "reverse product with the fill factor");
   sym_assert_eq(calcOutput(o, w.in), J, "the mass again");
   sym_reach("done");
}
