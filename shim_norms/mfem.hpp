// MFEM with the parallel space and field replaced by models on one rank: one
// scalar element per entry of the space, degrees of freedom with a sign, as
// MFEM numbers them. Compiled into both sides alike.
#pragma once
#include_next <mfem.hpp>
#include <vector>
namespace mfem
{
class ModelMesh { public: int Dimension() const { return 2; } };
class ModelColl
{
public:
   explicit ModelColl(const char *n) : name(n) { }
   virtual ~ModelColl() { }
   const char *Name() const { return name; }
   const char *name;
};
class ModelSpace
{
public:
   struct One { const FiniteElement *fe; ElementTransformation *T; std::vector<int> dofs; };
   std::vector<One> el;
   int vdim = 1, nd = 0;   // dof d of component c has the number d + c nd
   int GetNE() const { return (int)el.size(); }
   const FiniteElement *GetFE(int i) const { return el[i].fe; }
   ElementTransformation *GetElementTransformation(int i) const { return el[i].T; }
   void GetElementVDofs(int i, Array<int> &v) const
   {
      const int n = (int)el[i].dofs.size();
      v.SetSize(n * vdim);
      for (int c = 0; c < vdim; ++c) { for (int k = 0; k < n; ++k) { const int d = el[i].dofs[k]; v[c * n + k] = d >= 0 ? d + c * nd : d - c * nd; } }
   }
   int GetVDim() const { return vdim; }
   MPI_Comm GetComm() const { return MPI_COMM_NULL; }
};
class ModelFunction : public Vector
{
public:
   explicit ModelFunction(ModelSpace *f) : Vector(f->nd * f->vdim), fes(f) { Vector::operator=(0.0); }
   int VectorDim() const { return fes->vdim; }
   double value(int i, int c, const IntegrationPoint &ip) const
   {
      Array<int> v;
      fes->GetElementVDofs(i, v);
      const int n = fes->el[i].fe->GetDof();
      Vector s(n);
      fes->el[i].fe->CalcShape(ip, s);
      double r = 0.0;
      for (int k = 0; k < n; ++k) { const int d = v[c * n + k]; r += d >= 0 ? (*this)(d) * s(k) : -(*this)(-1 - d) * s(k); }
      return r;
   }
   void GetValues(int i, const IntegrationRule &ir, Vector &v, int c = 1) const
   {
      v.SetSize(ir.GetNPoints());
      for (int j = 0; j < ir.GetNPoints(); ++j) { v(j) = value(i, c - 1, ir.IntPoint(j)); }
   }
   void GetVectorValues(ElementTransformation &T, const IntegrationRule &ir, DenseMatrix &v) const
   {
      v.SetSize(fes->vdim, ir.GetNPoints());
      for (int j = 0; j < ir.GetNPoints(); ++j) { for (int c = 0; c < fes->vdim; ++c) { v(c, j) = value(T.ElementNo, c, ir.IntPoint(j)); } }
   }
   double GetValue(int i, const IntegrationPoint &ip, int c = 1) const { return value(i, c - 1, ip); }
   void SetFromTrueDofs(const Vector &t) { Vector::operator=(t); }
   void GetTrueDofs(Vector &t) const { t = *this; }
   template <typename C> void ProjectCoefficient(C &) { }
   ModelSpace *fes;
};
struct ModelGFC : ConstantCoefficient { ModelGFC(const ModelFunction *, int = 1) { } };
struct ModelVGFC { explicit ModelVGFC(const ModelFunction *) { } };
// on one rank; p is kept for the harness
inline double &modelNormP() { static double p; return p; }
inline double ModelLpNorm(double p, double loc, MPI_Comm) { modelNormP() = p; return loc; }
}  // namespace mfem
#define ParFiniteElementSpace ModelSpace
#define ParGridFunction ModelFunction
#define ParMesh ModelMesh
#define FiniteElementCollection ModelColl
#define GridFunctionCoefficient ModelGFC
#define VectorGridFunctionCoefficient ModelVGFC
#define GlobalLpNorm ModelLpNorm
