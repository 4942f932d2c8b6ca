// Symbolic side only: what the error norms need of MFEM.
#include "mfem.hpp"
namespace mfem
{
void VectorCoefficient::Eval(DenseMatrix &M, ElementTransformation &T, const IntegrationRule &ir)
{
   M.SetSize(vdim, ir.GetNPoints());
   for (int i = 0; i < ir.GetNPoints(); ++i)
   {
      Vector m(vdim);
      const IntegrationPoint &ip = ir.IntPoint(i);
      T.SetIntPoint(&ip);
      Eval(m, T, ip);
      for (int c = 0; c < vdim; ++c) { M(c, i) = m(c); }
   }
}
void VectorCoefficient::Project(QuadratureFunction &) { }
void Coefficient::Project(QuadratureFunction &) { }
void ConstantCoefficient::Project(QuadratureFunction &) { }
void DenseMatrix::Norm2(double *v) const
{
   for (int j = 0; j < Width(); ++j)
   {
      double s = 0.0;
      for (int i = 0; i < Height(); ++i) { s += (*this)(i, j) * (*this)(i, j); }
      v[j] = sqrt(s);
   }
}
}
