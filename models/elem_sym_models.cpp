// Models of MFEM's element transformations (symbolic side only).
#include <cmath>
#include "mfem.hpp"
namespace mfem
{
const int Geometry::Dimension[NumGeom] = {0, 1, 2, 2, 3, 3, 3, 3};
ElementTransformation::ElementTransformation() : IntPoint(nullptr), Wght(0.0), EvalState(0), geom(Geometry::INVALID), Attribute(-1), ElementNo(-1), ElementType(0), mesh(nullptr) { }
double ElementTransformation::EvalWeight() { Jacobian(); EvalState |= WEIGHT_MASK; return (Wght = (dFdx.Width() == 0) ? 1.0 : dFdx.Weight()); }
const DenseMatrix &ElementTransformation::EvalAdjugateJ()
{
   Jacobian();
   EvalState |= ADJUGATE_MASK;
   adjJ.SetSize(dFdx.Width(), dFdx.Height());
   if (dFdx.Width() > 0) { CalcAdjugate(dFdx, adjJ); }
   return adjJ;
}
const DenseMatrix &ElementTransformation::EvalTransAdjugateJ()
{
   AdjugateJacobian();
   EvalState |= TRANS_ADJUGATE_MASK;
   adjJT.SetSize(adjJ.Width(), adjJ.Height());
   for (int i = 0; i < adjJ.Height(); ++i) { for (int j = 0; j < adjJ.Width(); ++j) { adjJT(j, i) = adjJ(i, j); } }
   return adjJT;
}
const DenseMatrix &ElementTransformation::EvalInverseJ()
{
   Jacobian();
   EvalState |= INVERSE_MASK;
   invJ.SetSize(dFdx.Width(), dFdx.Height());
   if (dFdx.Width() > 0)
   {
      AdjugateJacobian();
      const double w = Weight();
      const double d = dFdx.Height() == dFdx.Width() ? w : w * w;
      for (int i = 0; i < invJ.Height(); ++i) { for (int j = 0; j < invJ.Width(); ++j) { invJ(i, j) = adjJ(i, j) / d; } }
   }
   return invJ;
}
const DenseMatrix &IsoparametricTransformation::EvalJacobian()
{
   EvalState |= JACOBIAN_MASK;
   dFdx.SetSize(PointMat.Height(), FElem->GetDim());
   dshape.SetSize(FElem->GetDof(), FElem->GetDim());
   if (FElem->GetDim() > 0)
   {
      FElem->CalcDShape(*IntPoint, dshape);
      mfem::Mult(PointMat, dshape, dFdx);
   }
   return dFdx;
}
const DenseMatrix &IsoparametricTransformation::EvalHessian() { mfem_error("EvalHessian"); return d2Fdx2; }
void IsoparametricTransformation::Transform(const IntegrationPoint &ip, Vector &x)
{
   shape.SetSize(FElem->GetDof());
   FElem->CalcShape(ip, shape);
   x.SetSize(PointMat.Height());
   PointMat.Mult(shape, x);
}
void IsoparametricTransformation::Transform(const IntegrationRule &, DenseMatrix &) { mfem_error("Transform"); }
void IsoparametricTransformation::Transform(const DenseMatrix &, DenseMatrix &) { mfem_error("Transform"); }
int IsoparametricTransformation::OrderJ() const { return FElem->Space() == FunctionSpace::Pk ? FElem->GetOrder() - 1 : FElem->GetOrder(); }
int IsoparametricTransformation::OrderW() const { return FElem->Space() == FunctionSpace::Pk ? (FElem->GetOrder() - 1) * FElem->GetDim() : FElem->GetOrder() * FElem->GetDim() - 1; }
int IsoparametricTransformation::OrderGrad(const FiniteElement *fe) const
{
   const int k = FElem->GetOrder(), d = FElem->GetDim(), l = fe->GetOrder();
   return fe->Space() == FunctionSpace::Pk ? (k - 1) * (d - 1) + l - 1 : k * (d - 1) + l - 1;
}
void IntegrationPointTransformation::Transform(const IntegrationPoint &a, IntegrationPoint &b)
{
   double v[3];
   Vector x(v, Transf.GetPointMat().Height());
   Transf.Transform(a, x);
   b.Set(v, x.Size());
}
void FaceElementTransformations::SetIntPoint(const IntegrationPoint *ip)
{
   IsoparametricTransformation::SetIntPoint(ip);
   if (mask & 4) { Loc1.Transform(*ip, eip1); if (Elem1) { Elem1->SetIntPoint(&eip1); } }
   if (mask & 8) { Loc2.Transform(*ip, eip2); if (Elem2) { Elem2->SetIntPoint(&eip2); } }
}
void FaceElementTransformations::Transform(const IntegrationPoint &ip, Vector &x) { IsoparametricTransformation::Transform(ip, x); }
void FaceElementTransformations::Transform(const IntegrationRule &, DenseMatrix &) { mfem_error("Transform"); }
void FaceElementTransformations::Transform(const DenseMatrix &, DenseMatrix &) { mfem_error("Transform"); }
ElementTransformation &FaceElementTransformations::GetElement1Transformation() { return *Elem1; }
ElementTransformation &FaceElementTransformations::GetElement2Transformation() { return *Elem2; }
IntegrationPointTransformation &FaceElementTransformations::GetIntPoint1Transformation() { return Loc1; }
IntegrationPointTransformation &FaceElementTransformations::GetIntPoint2Transformation() { return Loc2; }

void FiniteElement::CalcPhysShape(ElementTransformation &T, Vector &shape) const
{
   CalcShape(T.GetIntPoint(), shape);
   if (map_type == INTEGRAL) { shape /= T.Weight(); }
}
void FiniteElement::CalcPhysDShape(ElementTransformation &T, DenseMatrix &dshape) const
{
   DenseMatrix vs(dof, dim);
   CalcDShape(T.GetIntPoint(), vs);
   mfem::Mult(vs, T.InverseJacobian(), dshape);
}
void FiniteElement::CalcPhysCurlShape(ElementTransformation &T, DenseMatrix &curl) const
{
   const int cd = dim == 3 ? 3 : 1;
   DenseMatrix cs(dof, cd);
   CalcCurlShape(T.GetIntPoint(), cs);
   if (dim == 3) { MultABt(cs, T.Jacobian(), curl); }
   else { curl = cs; }
   curl *= 1.0 / T.Weight();
}
double &Vector::Elem(int i) { return data[i]; }
void Add(const double a, const DenseMatrix &A, const double b, const DenseMatrix &B, DenseMatrix &C)
{
   for (int j = 0; j < C.Width(); ++j) { for (int i = 0; i < C.Height(); ++i) { C(i, j) = a * A(i, j) + b * B(i, j); } }
}
void AddMult_a_AAt(double a, const DenseMatrix &A, DenseMatrix &B)
{
   for (int i = 0; i < A.Height(); ++i) { for (int j = 0; j < A.Height(); ++j) { double s = 0.0; for (int k = 0; k < A.Width(); ++k) { s += A(i, k) * A(j, k); } B(i, j) += a * s; } }
}
void DenseMatrix::AddMultTranspose_a(double a, const Vector &x, Vector &y) const
{
   for (int j = 0; j < width; ++j) { double s = 0.0; for (int i = 0; i < height; ++i) { s += (*this)(i, j) * x(i); } y(j) += a * s; }
}
void DenseMatrix::FNorm(double &scale_factor, double &scaled_fnorm2) const
{
   double s = 0.0;
   for (int i = 0; i < height * width; ++i) { s += data[i] * data[i]; }
   scale_factor = 1.0;
   scaled_fnorm2 = s;
}
void DenseMatrix::GradToVectorCurl2D(DenseMatrix &curl)   // of a scalar U
{
   for (int i = 0; i < Height(); ++i) { const double x = (*this)(i, 0), y = (*this)(i, 1); curl(i, 0) = y; curl(i, 1) = -x; }
}
void DenseMatrix::GradToCurl(DenseMatrix &curl)
{
   const int n = Height();
   if (Width() == 2)
   {
      for (int i = 0; i < n; ++i) { const double x = (*this)(i, 0), y = (*this)(i, 1); curl(i, 0) = -y; curl(i + n, 0) = x; }   // of a vector with one component U
      return;
   }
   for (int i = 0; i < n; ++i)
   {
      const int j = i + n, k = j + n;
      const double x = (*this)(i, 0), y = (*this)(i, 1), z = (*this)(i, 2);
      curl(i, 0) = 0.0; curl(i, 1) = z; curl(i, 2) = -y;
      curl(j, 0) = -z; curl(j, 1) = 0.0; curl(j, 2) = x;
      curl(k, 0) = y; curl(k, 1) = -x; curl(k, 2) = 0.0;
   }
}
void GridFunction::SetFromTrueDofs(const Vector &) { mfem_error("SetFromTrueDofs"); }
void FiniteElementSpace::UpdateMeshPointer(Mesh *) { mfem_error("UpdateMeshPointer"); }
void GridFunction::Destroy() { }
void FiniteElementSpace::Destroy() { }
FiniteElementSpace::FiniteElementSpace() : mesh(nullptr), fec(nullptr), vdim(0), ordering(Ordering::byNODES), ndofs(0), nvdofs(0), nedofs(0), nfdofs(0), nbdofs(0), bdofs(nullptr), elem_dof(nullptr), elem_fos(nullptr), bdr_elem_dof(nullptr), bdr_elem_fos(nullptr), face_dof(nullptr), NURBSext(nullptr), own_ext(false), cP(nullptr), cR(nullptr), cR_hp(nullptr), cP_is_set(false), sequence(0), mesh_sequence(0), orders_changed(false), relaxed_hp(false) { }
}
// MFEM's own integrators that MISO's build on (symbolic side only)
namespace mfem
{
void DomainLFIntegrator::AssembleDeltaElementVect(const FiniteElement &, ElementTransformation &, Vector &) { mfem_error("delta"); }
void DomainLFIntegrator::AssembleDevice(const FiniteElementSpace &, const Array<int> &, Vector &) { mfem_error("device"); }
void DeltaLFIntegrator::AssembleDeltaElementVect(const FiniteElement &, ElementTransformation &, Vector &) { mfem_error("delta"); }
void VectorFEDomainLFCurlIntegrator::AssembleDeltaElementVect(const FiniteElement &, ElementTransformation &, Vector &) { mfem_error("delta"); }
}
