// Models of MFEM finite element base classes (symbolic side only).
#include "mfem.hpp"
#undef FiniteElementCollection   // shim_norms
namespace mfem
{
FiniteElement::FiniteElement(int D, Geometry::Type G, int Do, int O, int F) : Nodes(Do)
{
   dim = D; geom_type = G; dof = Do; order = O; func_space = F;
   vdim = 0; cdim = 0;
   range_type = SCALAR; map_type = VALUE;
   deriv_type = NONE; deriv_range_type = SCALAR; deriv_map_type = VALUE;
   for (int i = 0; i < Geometry::MaxDim; ++i) { orders[i] = -1; }
#ifndef MFEM_THREAD_SAFE
   vshape.SetSize(dof, dim);
#endif
}
FiniteElement::~FiniteElement() { }
PointFiniteElement::PointFiniteElement() : NodalFiniteElement(0, Geometry::POINT, 1, 0) { lex_ordering.SetSize(1); lex_ordering[0] = 0; Nodes.IntPoint(0).x = 0.0; }
void PointFiniteElement::CalcShape(const IntegrationPoint &, Vector &shape) const { shape(0) = 1.0; }
void PointFiniteElement::CalcDShape(const IntegrationPoint &, DenseMatrix &) const { }
void DenseMatrix::InvLeftScaling(const Vector &s) { for (int j = 0; j < width; ++j) { for (int i = 0; i < height; ++i) { (*this)(i, j) /= s(i); } } }
void DenseMatrix::InvRightScaling(const Vector &s) { for (int j = 0; j < width; ++j) { for (int i = 0; i < height; ++i) { (*this)(i, j) /= s(j); } } }
FiniteElementCollection::~FiniteElementCollection() { }
FiniteElementCollection *FiniteElementCollection::GetTraceCollection() const { return nullptr; }
}
