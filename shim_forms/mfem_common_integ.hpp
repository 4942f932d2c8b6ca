// Models of the integrators the common outputs are made of (the real ones are
// checked under C12): polynomials of the state and the mesh coordinates.
#ifndef MISO_MFEM_COMMON_INTEG
#define MISO_MFEM_COMMON_INTEG
#include <mfem.hpp>  // with quotes, include_next would find the model again
#include "finite_element_state.hpp"
#include "miso_input.hpp"
namespace miso
{
struct ModelDensity { virtual double density() const = 0; };
// sum of w (a0 + a1 u_0 u_1 + a2 u_1) (1 + x_0 (2 + x_1)) s rho
class ModelOutput : public mfem::NonlinearFormIntegrator
{
public:
   ModelOutput(double b0, double b1, double b2) : a0(b0), a1(b1), a2(b2) { }
   double a0, a1, a2, s = 1.0;
   bool shifted = false;
   const mfem::Vector *x = nullptr;
   mfem::Coefficient **rho = nullptr;
   double scale() const { return s * (rho ? dynamic_cast<ModelDensity &>(**rho).density() : 1.0); }
   double size(const mfem::model::Entity &e) const { return 1.0 + (*x)(e.d[0]) * (2.0 + (*x)(e.d[1])); }
   double f(const mfem::model::Entity &e, const mfem::Vector &u) const { return a0 + a1 * u(e.d[0]) * u(e.d[1]) + a2 * u(e.d[1]); }
   double energy(const mfem::model::Entity &e, mfem::model::Kind, const mfem::Vector &u) override { return e.w * f(e, u) * size(e) * scale(); }
   void vec(const mfem::model::Entity &e, mfem::model::Kind, const mfem::Vector &u, double *o) override
   {
      const double c = e.w * size(e) * scale();
      o[0] = c * a1 * u(e.d[1]);
      o[1] = c * (a1 * u(e.d[0]) + a2);
   }
};
inline void setInputs(ModelOutput &o, const MISOInputs &inputs)
{
   if (!o.shifted) { return; }
   double m = NAN;
   setValueFromInputs(inputs, "true_max", m);
   if (m == m) { o.s = 2.5 + m; }
}
struct VolumeIntegrator : ModelOutput { explicit VolumeIntegrator(mfem::Coefficient **r = nullptr) : ModelOutput(1.0, 0.0, 0.0) { rho = r; } };
struct StateIntegrator : ModelOutput { StateIntegrator() : ModelOutput(0.5, 0.25, 1.0) { } };
struct MagnitudeCurlStateIntegrator : ModelOutput { MagnitudeCurlStateIntegrator() : ModelOutput(0.25, -0.5, 1.5) { } };
struct IEAggregateIntegratorNumerator : ModelOutput { explicit IEAggregateIntegratorNumerator(double r) : ModelOutput(r, 0.5, r) { shifted = true; } };
struct IEAggregateIntegratorDenominator : ModelOutput { explicit IEAggregateIntegratorDenominator(double r) : ModelOutput(4.0 + r, 0.0625, 0.125) { shifted = true; } };
struct IECurlMagnitudeAggregateIntegratorNumerator : ModelOutput { explicit IECurlMagnitudeAggregateIntegratorNumerator(double r) : ModelOutput(r, 0.75, 1.0) { } };
struct IECurlMagnitudeAggregateIntegratorDenominator : ModelOutput { explicit IECurlMagnitudeAggregateIntegratorDenominator(double r) : ModelOutput(5.0, 0.125, r * 0.0625) { } };
struct ModelMeshSens : mfem::LinearFormIntegrator
{
   ModelMeshSens(ModelOutput &o_, const mfem::Vector &u_) : o(o_), u(u_) { }
   ModelOutput &o;
   const mfem::Vector &u;
   void vec(const mfem::model::Entity &e, mfem::model::Kind, double *r) override
   {
      const double c = e.w * o.f(e, u) * o.scale();
      r[0] = c * (2.0 + (*o.x)(e.d[1]));
      r[1] = c * (*o.x)(e.d[0]);
   }
};
// as the real one: the same integrator, evaluated with what rho then points to
struct ModelFillFactorSens : mfem::NonlinearFormIntegrator
{
   explicit ModelFillFactorSens(ModelOutput &o_) : o(o_) { }
   ModelOutput &o;
   double energy(const mfem::model::Entity &e, mfem::model::Kind k, const mfem::Vector &u) override { return o.energy(e, k, u); }
};
inline void addDomainSensitivityIntegrator(ModelOutput &o, std::map<std::string, FiniteElementState> &fields, std::map<std::string, mfem::ParLinearForm> &sens,
                                           std::map<std::string, mfem::ParNonlinearForm> &scalar, mfem::Array<int> *m, std::string state)
{
   o.x = &fields.at("mesh_coords").gridFunc();
   sens.emplace("mesh_coords", &fields.at("mesh_coords").space());
   auto *i = new ModelMeshSens(o, fields.at(state).gridFunc());
   if (m) { sens.at("mesh_coords").AddDomainIntegrator(i, *m); } else { sens.at("mesh_coords").AddDomainIntegrator(i); }
   if (!o.rho) { return; }
   scalar.emplace("fill_factor", &fields.at("state").space());
   auto *f = new ModelFillFactorSens(o);
   if (m) { scalar.at("fill_factor").AddDomainIntegrator(f, *m); } else { scalar.at("fill_factor").AddDomainIntegrator(f); }
}
#define MODEL_OUTPUT(T) \
   inline void setInputs(T &t, const MISOInputs &i) { setInputs(static_cast<ModelOutput &>(t), i); } \
   inline void addDomainSensitivityIntegrator(T &t, std::map<std::string, FiniteElementState> &f, std::map<std::string, mfem::ParLinearForm> &s, \
                                              std::map<std::string, mfem::ParNonlinearForm> &c, mfem::Array<int> *m, std::string n) { addDomainSensitivityIntegrator(static_cast<ModelOutput &>(t), f, s, c, m, n); }
MODEL_OUTPUT(VolumeIntegrator)
MODEL_OUTPUT(StateIntegrator)
MODEL_OUTPUT(MagnitudeCurlStateIntegrator)
MODEL_OUTPUT(IEAggregateIntegratorNumerator)
MODEL_OUTPUT(IEAggregateIntegratorDenominator)
MODEL_OUTPUT(IECurlMagnitudeAggregateIntegratorNumerator)
MODEL_OUTPUT(IECurlMagnitudeAggregateIntegratorDenominator)
}  // namespace miso

#endif
