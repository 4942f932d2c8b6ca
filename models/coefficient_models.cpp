// The out-of-line members that anchor the vtables of mfem's coefficients.  Used
// on both sides, so that the vtables are those of the overlaid headers.
#include "mfem.hpp"
namespace mfem
{
void Coefficient::Project(QuadratureFunction &) { MFEM_ABORT("not modelled"); }
void ConstantCoefficient::Project(QuadratureFunction &) { MFEM_ABORT("not modelled"); }
void VectorCoefficient::Eval(DenseMatrix &, ElementTransformation &, const IntegrationRule &) { MFEM_ABORT("not modelled"); }
void VectorCoefficient::Project(QuadratureFunction &) { MFEM_ABORT("not modelled"); }
double FunctionCoefficient::Eval(ElementTransformation &T, const IntegrationPoint &ip)
{
   double x[3];
   Vector transip(x, 3);
   T.Transform(ip, transip);
   return Function ? Function(transip) : TDFunction(transip, GetTime());
}
void VectorFunctionCoefficient::Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip)
{
   double x[3];
   Vector transip(x, 3);
   T.Transform(ip, transip);
   V.SetSize(vdim);
   if (Function) { Function(transip, V); }
   else { TDFunction(transip, GetTime(), V); }
   if (Q) { V *= Q->Eval(T, ip, GetTime()); }
}
void ProductCoefficient::SetTime(double t) { if (a) { a->SetTime(t); } if (b) { b->SetTime(t); } Coefficient::SetTime(t); }
ScalarVectorProductCoefficient::ScalarVectorProductCoefficient(double A, VectorCoefficient &B) : VectorCoefficient(B.GetVDim()), aConst(A), a(nullptr), b(&B) { }
ScalarVectorProductCoefficient::ScalarVectorProductCoefficient(Coefficient &A, VectorCoefficient &B) : VectorCoefficient(B.GetVDim()), aConst(0.0), a(&A), b(&B) { }
void ScalarVectorProductCoefficient::SetTime(double t) { if (a) { a->SetTime(t); } if (b) { b->SetTime(t); } VectorCoefficient::SetTime(t); }
void ScalarVectorProductCoefficient::Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip)
{
   const double va = a ? a->Eval(T, ip) : aConst;
   b->Eval(V, T, ip);
   V *= va;
}
}  // namespace mfem
