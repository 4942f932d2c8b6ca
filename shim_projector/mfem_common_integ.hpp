// Models of the two mesh sensitivities the projector uses (checked under C12):
// adjoint^T d(operator)/d(theta) state
#pragma once
#include "mfem.hpp"
namespace miso
{
template <mfem::model::Kind K> class ModelMeshSens : public mfem::model::LinearInteg
{
public:
   void setState(const mfem::GridFunction &u) { state = &u; }
   void setAdjoint(const mfem::GridFunction &a) { adjoint = &a; }
   double value() const override
   {
      double r = 0.0;
      for (int i = 0; i < adjoint->Size(); ++i)
      {
         for (int j = 0; j < state->Size(); ++j) { r += (*adjoint)(i) * mfem::model::world().entry(K, i, j, mfem::model::eps(K, rule), true) * (*state)(j); }
      }
      return r;
   }
   const mfem::GridFunction *state = nullptr, *adjoint = nullptr;
};
class DiffusionIntegratorMeshSens : public ModelMeshSens<mfem::model::DIFFUSION> { };
class VectorFEWeakDivergenceIntegratorMeshSens : public ModelMeshSens<mfem::model::WEAKDIV> { };
}  // namespace miso
