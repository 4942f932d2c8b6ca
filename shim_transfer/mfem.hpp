// MFEM with the parallel mesh, space and field replaced by models on one rank:
// elements given one by one, degrees of freedom with a sign, an element-local
// transformation of the degrees of freedom where the space has one, and local
// values that are copies of true ones. The element maps follow the mesh nodes.
// Compiled into both sides alike.
#pragma once
#include_next <mfem.hpp>
#ifndef FORMS_PLAIN
#include <vector>
namespace mfem
{
class ModelColl { public: virtual ~ModelColl() { } };
// primal values v -> T v with T = [[1, a], [0, b]] on the first two
class ModelDofTransformation
{
public:
   double a, b;
   void TransformPrimal(Vector &v) const { v(0) += a * v(1); v(1) *= b; }
   void InvTransformPrimal(Vector &v) const { v(1) /= b; v(0) -= a * v(1); }
   void TransformDual(Vector &v) const { v(1) = (v(1) - a * v(0)) / b; }
   void InvTransformDual(Vector &v) const { v(1) = b * v(1) + a * v(0); }
};
class ModelFunction;
class ModelMesh
{
public:
   int Dimension() const { return dim; }
   int SpaceDimension() const { return dim; }
   ModelFunction *GetNodes() { return nodes; }
   int dim = 2;
   ModelFunction *nodes = nullptr;
   std::vector<IsoparametricTransformation *> T;
};
class ModelRestriction { public: void MultTranspose(const Vector &, Vector &) const { mfem_error("restriction"); } };
class ModelSpace
{
public:
   struct One { const FiniteElement *fe; std::vector<int> dofs; };
   ModelSpace(ModelMesh *m, int vd) : mesh(m), vdim(vd) { }
   ModelMesh *mesh;
   std::vector<One> el;
   int vdim, nd = 0;               // dof d of component c has the number d + c nd
   std::vector<int> owner;         // the true dof of every local one
   int ntrue = 0;
   const ModelDofTransformation *transform = nullptr;
   int GetNE() const { return (int)el.size(); }
   const FiniteElement *GetFE(int i) const { return el[i].fe; }
   IsoparametricTransformation *GetElementTransformation(int i) const;
   const ModelDofTransformation *GetElementVDofs(int i, Array<int> &v) const
   {
      const int n = (int)el[i].dofs.size();
      v.SetSize(n * vdim);
      for (int c = 0; c < vdim; ++c) { for (int k = 0; k < n; ++k) { const int d = el[i].dofs[k]; v[c * n + k] = d >= 0 ? d + c * nd : d - c * nd; } }
      return transform;
   }
   int GetVDim() const { return vdim; }
   int GetVSize() const { return nd * vdim; }
   int GetTrueVSize() const { return ntrue; }
   int TrueVSize() const { return ntrue; }
   MPI_Comm GetComm() const { return MPI_COMM_NULL; }
   const ModelRestriction *GetRestrictionOperator() const { static ModelRestriction r; return &r; }
};
class ModelFunction : public Vector
{
public:
   explicit ModelFunction(ModelSpace *f) : Vector(f->GetVSize()), fes(f) { Vector::operator=(0.0); }
   ModelFunction &operator=(double c) { Vector::operator=(c); return *this; }
   ModelSpace *ParFESpace() const { return fes; }
   int VectorDim() const { return fes->vdim; }
   void SetFromTrueDofs(const Vector &t) { for (int i = 0; i < Size(); ++i) { (*this)(i) = t(fes->owner[i]); } }
   void GetTrueDofs(Vector &t) const { t.SetSize(fes->ntrue); for (int i = Size() - 1; i >= 0; --i) { t(fes->owner[i]) = (*this)(i); } }
   void ParallelAssemble(Vector &t) const
   {
      // as in MFEM the caller sizes t
      for (int i = 0; i < fes->ntrue; ++i) { t(i) = 0.0; }
      for (int i = 0; i < Size(); ++i) { t(fes->owner[i]) += (*this)(i); }
   }
   template <typename C> void ProjectCoefficient(C &) { }
   ModelSpace *fes;
};
inline IsoparametricTransformation *ModelSpace::GetElementTransformation(int i) const
{
   const ModelSpace &m = *mesh->nodes->fes;
   IsoparametricTransformation *T = mesh->T[i];
   Array<int> v;
   m.GetElementVDofs(i, v);
   const int n = (int)m.el[i].dofs.size();
   DenseMatrix P(m.vdim, n);
   for (int c = 0; c < m.vdim; ++c) { for (int k = 0; k < n; ++k) { P(c, k) = (*mesh->nodes)(v[c * n + k]); } }
   T->SetFE(m.el[i].fe);
   T->SetPointMat(P);
   T->ElementNo = i;
   return T;
}
struct ModelGFC : ConstantCoefficient { ModelGFC(const ModelFunction *, int = 1) { } };
struct ModelVGFC { explicit ModelVGFC(const ModelFunction *) { } };
}  // namespace mfem
#define ParFiniteElementSpace ModelSpace
#define ParGridFunction ModelFunction
#define ParMesh ModelMesh
#define FiniteElementCollection ModelColl
#define GridFunctionCoefficient ModelGFC
#define VectorGridFunctionCoefficient ModelVGFC
#endif
