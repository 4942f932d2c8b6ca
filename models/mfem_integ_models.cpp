// MFEM's own integrators that MISO's build on; on both sides, so that both use the harness's rules
#include "mfem.hpp"
namespace mfem
{
void DomainLFIntegrator::AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &T, Vector &v)
{
   const int n = el.GetDof();
   shape.SetSize(n);
   v.SetSize(n);
   v = 0.0;
   const IntegrationRule *ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
   for (int i = 0; i < ir->GetNPoints(); ++i)
   {
      const IntegrationPoint &ip = ir->IntPoint(i);
      T.SetIntPoint(&ip);
      const double val = T.Weight() * Q.Eval(T, ip);
      el.CalcPhysShape(T, shape);
      for (int j = 0; j < n; ++j) { v(j) += ip.weight * val * shape(j); }
   }
}
void VectorFEDomainLFCurlIntegrator::AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &T, Vector &v)
{
   const int n = el.GetDof(), d = el.GetDim() == 3 ? 3 : 1;
   curlshape.SetSize(n, d);
   vec.SetSize(d);
   v.SetSize(n);
   v = 0.0;
   const IntegrationRule *ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder());
   for (int i = 0; i < ir->GetNPoints(); ++i)
   {
      const IntegrationPoint &ip = ir->IntPoint(i);
      T.SetIntPoint(&ip);
      el.CalcPhysCurlShape(T, curlshape);
      QF->Eval(vec, T, ip);
      vec *= ip.weight * T.Weight();
      curlshape.AddMult(vec, v);
   }
}
}
