// free functions and member functions of the MFEM fork
namespace mfem
{
inline void CalcOrthoRevDiff(const DenseMatrix &J, const Vector &n_bar, DenseMatrix &J_bar)
{
   J_bar = 0.0;   // set, not added to: mesh_sens_integ_def.hpp relies on it, the other callers clear it first
   if (J.Height() == 2)   // n = (J1, -J0)
   {
      J_bar(1, 0) += n_bar(0);
      J_bar(0, 0) -= n_bar(1);
      return;
   }
   for (int i = 0; i < 3; ++i)   // n_i = J(j, 0) J(k, 1) - J(k, 0) J(j, 1)
   {
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      J_bar(j, 0) += n_bar(i) * J(k, 1);
      J_bar(k, 1) += n_bar(i) * J(j, 0);
      J_bar(k, 0) -= n_bar(i) * J(j, 1);
      J_bar(j, 1) -= n_bar(i) * J(k, 0);
   }
}
inline void FiniteElement::CalcPhysShapeRevDiff(ElementTransformation &Trans, const Vector &shape_bar, DenseMatrix &PointMat_bar) const
{
   if (map_type != INTEGRAL) { return; }
   Vector shape(dof);
   CalcShape(Trans.GetIntPoint(), shape);
   const double w = Trans.Weight();
   static_cast<IsoparametricTransformation &>(Trans).WeightRevDiff(-(shape_bar * shape) / (w * w), PointMat_bar);
}
inline void FiniteElement::CalcVShapeRevDiff(ElementTransformation &Trans, const DenseMatrix &vshape_bar, DenseMatrix &PointMat_bar) const
{
   auto &iso = static_cast<IsoparametricTransformation &>(Trans);
   DenseMatrix vs(dof, dim);
   CalcVShape(Trans.GetIntPoint(), vs);
   if (map_type == H_CURL)   // vs J^{-1}
   {
      DenseMatrix inv_bar(dim, Trans.GetSpaceDim());
      MultAtB(vs, vshape_bar, inv_bar);
      iso.InverseJacobianRevDiff(inv_bar, PointMat_bar);
      return;
   }
   const DenseMatrix &J = Trans.Jacobian();   // vs J^T / w
   const double w = Trans.Weight();
   DenseMatrix jac_bar(J.Height(), J.Width());
   double w_bar = 0.0;
   for (int i = 0; i < dof; ++i)
      for (int d = 0; d < J.Height(); ++d)
         for (int k = 0; k < J.Width(); ++k)
         {
            jac_bar(d, k) += vshape_bar(i, d) * vs(i, k) / w;
            w_bar -= vshape_bar(i, d) * vs(i, k) * J(d, k) / (w * w);
         }
   iso.JacobianRevDiff(jac_bar, PointMat_bar);
   iso.WeightRevDiff(w_bar, PointMat_bar);
}
inline void FiniteElement::CalcPhysCurlShapeRevDiff(ElementTransformation &Trans, const DenseMatrix &curl_bar, DenseMatrix &PointMat_bar) const
{
   auto &iso = static_cast<IsoparametricTransformation &>(Trans);
   const int cd = dim == 3 ? 3 : 1;
   DenseMatrix cs(dof, cd);
   CalcCurlShape(Trans.GetIntPoint(), cs);
   const double w = Trans.Weight();
   double w_bar = 0.0;
   if (dim == 2)
   {
      for (int i = 0; i < dof; ++i) { w_bar -= curl_bar(i, 0) * cs(i, 0) / (w * w); }
      iso.WeightRevDiff(w_bar, PointMat_bar);
      return;
   }
   const DenseMatrix &J = Trans.Jacobian();
   DenseMatrix jac_bar(3, 3);
   for (int i = 0; i < dof; ++i)
      for (int d = 0; d < 3; ++d)
         for (int k = 0; k < 3; ++k)
         {
            jac_bar(d, k) += curl_bar(i, d) * cs(i, k) / w;
            w_bar -= curl_bar(i, d) * cs(i, k) * J(d, k) / (w * w);
         }
   iso.JacobianRevDiff(jac_bar, PointMat_bar);
   iso.WeightRevDiff(w_bar, PointMat_bar);
}
inline void FunctionCoefficient::EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   if (!FunctionRevDiff) { return; }
   double xb[3], xb_bar[3] = {0.0, 0.0, 0.0};
   Vector x(xb, T.GetSpaceDim()), x_bar(xb_bar, T.GetSpaceDim());
   T.Transform(ip, x);
   FunctionRevDiff(x, Q_bar, x_bar);
   Vector shape(PointMat_bar.Width());
   static_cast<IsoparametricTransformation &>(T).GetFE()->CalcShape(ip, shape);
   AddMultVWt(x_bar, shape, PointMat_bar);
}
inline void VectorFunctionCoefficient::EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   if (!FunctionRevDiff) { return; }
   double xb[3], xb_bar[3] = {0.0, 0.0, 0.0};
   Vector x(xb, T.GetSpaceDim()), x_bar(xb_bar, T.GetSpaceDim());
   T.Transform(ip, x);
   FunctionRevDiff(x, V_bar, x_bar);
   Vector shape(PointMat_bar.Width());
   static_cast<IsoparametricTransformation &>(T).GetFE()->CalcShape(ip, shape);
   AddMultVWt(x_bar, shape, PointMat_bar);
}
inline void ProductCoefficient::EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   const double va = a ? a->Eval(T, ip) : aConst;
   if (a) { a->EvalRevDiff(Q_bar * b->Eval(T, ip), T, ip, PointMat_bar); }
   b->EvalRevDiff(Q_bar * va, T, ip, PointMat_bar);
}
inline void ScalarVectorProductCoefficient::EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar)
{
   const double va = a ? a->Eval(T, ip) : aConst;
   Vector v(vdim), s(V_bar);
   b->Eval(v, T, ip);
   s *= va;
   if (a) { a->EvalRevDiff(V_bar * v, T, ip, PointMat_bar); }
   b->EvalRevDiff(s, T, ip, PointMat_bar);
}
}  // namespace mfem
