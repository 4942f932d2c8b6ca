// MFEM with the parallel mesh, spaces, forms and matrices replaced by dense
// models of one small mesh on one rank: three elements, boundary, interior and
// internal boundary faces with attributes; the last local degree of freedom is
// a copy of the first true one, so that true vectors and grid functions differ.
// The forms follow MFEM: markers select attributes and are kept by reference,
// Mult zeroes the rows of essential true dofs, GetGradient eliminates them,
// linear forms assemble from zero. Compiled into both sides alike.
#pragma once
#include_next <mfem.hpp>
#ifndef FORMS_PLAIN
#include <list>
#include <vector>
namespace mfem
{
namespace model
{
enum Kind { DOMAIN_, INTERIOR, BDRFACE, INTERNAL, BOUNDARY };
struct Entity { int attr, n, d[2]; double w; };
class Mesh
{
public:
   Array<int> attributes, bdr_attributes;
   std::vector<Entity> el, bdr, interior, internal;
   MPI_Comm GetComm() const { return MPI_COMM_NULL; }
   int Dimension() const { return 2; }
   const std::vector<Entity> &entities(Kind k) const { return k == DOMAIN_ ? el : k == INTERIOR ? interior : k == INTERNAL ? internal : bdr; }
};
class Space
{
public:
   enum { N = 3, M = 4 };
   explicit Space(Mesh *m) : mesh(m) { }
   static int owner(int l) { return l == 3 ? 0 : l; }
   Mesh *GetParMesh() const { return mesh; }
   Mesh *GetMesh() const { return mesh; }
   int GetVSize() const { return M; }
   int GetNDofs() const { return M; }
   int GetTrueVSize() const { return N; }
   int TrueVSize() const { return N; }
   int GlobalTrueVSize() const { return N; }
   int GetVDim() const { return 1; }
   MPI_Comm GetComm() const { return MPI_COMM_NULL; }
   void GetEssentialTrueDofs(const Array<int> &bdr, Array<int> &t) const
   {
      bool e[N] = {false, false, false};
      for (const Entity &b : mesh->bdr) { for (int i = 0; i < b.n; ++i) { if (bdr[b.attr - 1]) { e[owner(b.d[i])] = true; } } }
      t.SetSize(0);
      for (int i = 0; i < N; ++i) { if (e[i]) { t.Append(i); } }
   }
   // local values of true ones, and the transpose of that
   void up(const Vector &t, Vector &l) const { l.SetSize(M); for (int i = 0; i < M; ++i) { l(i) = t(owner(i)); } }
   void down(const Vector &l, Vector &t) const
   {
      // as in MFEM the caller sizes t
      for (int i = 0; i < N; ++i) { t(i) = 0.0; }
      for (int i = 0; i < M; ++i) { t(owner(i)) += l(i); }
   }
   Mesh *mesh;
};
class Function : public Vector
{
public:
   Function() : fes(nullptr) { }
   explicit Function(Space *f) : Vector(Space::M), fes(f) { Vector::operator=(0.0); }
   Function &operator=(double c) { Vector::operator=(c); return *this; }
   Function &operator=(const Vector &v) { Vector::operator=(v); return *this; }
   Space *ParFESpace() const { return fes; }
   Space *FESpace() const { return fes; }
   int VectorDim() const { return 1; }
   void SetFromTrueDofs(const Vector &t) { fes->up(t, *this); }
   void GetTrueDofs(Vector &t) const { t.SetSize(Space::N); for (int i = 0; i < Space::N; ++i) { t(i) = (*this)(i); } }
   template <typename C> void ProjectCoefficient(C &) { }
   Space *fes;
};
struct GFCoefficient : ConstantCoefficient { GFCoefficient(const Function *, int = 1) { } };
struct VGFCoefficient { explicit VGFCoefficient(const Function *) { } };
struct NonlinearInteg
{
   virtual ~NonlinearInteg() { }
   virtual double energy(const Entity &, Kind, const Vector &u) = 0;
   virtual void vec(const Entity &, Kind, const Vector &u, double *out) { out[0] = out[1] = 0.0; }
   virtual void grad(const Entity &, Kind, const Vector &u, double (*out)[2]) { out[0][0] = out[0][1] = out[1][0] = out[1][1] = 0.0; }
};
struct LinearInteg
{
   virtual ~LinearInteg() { }
   virtual void vec(const Entity &, Kind, double *out) = 0;
};
template <typename I> struct Added { I *integ; const Array<int> *marker; Kind kind; };
template <typename I> class Form
{
public:
   void AddDomainIntegrator(I *i) { in.push_back({i, nullptr, DOMAIN_}); }
   void AddDomainIntegrator(I *i, Array<int> &m) { in.push_back({i, &m, DOMAIN_}); }
   void AddInteriorFaceIntegrator(I *i) { in.push_back({i, nullptr, INTERIOR}); }
   void AddBoundaryIntegrator(I *i) { in.push_back({i, nullptr, BOUNDARY}); }
   void AddBoundaryIntegrator(I *i, Array<int> &m) { in.push_back({i, &m, BOUNDARY}); }
   void AddBdrFaceIntegrator(I *i) { in.push_back({i, nullptr, BDRFACE}); }
   void AddBdrFaceIntegrator(I *i, Array<int> &m) { in.push_back({i, &m, BDRFACE}); }
   void AddInternalBoundaryFaceIntegrator(I *i) { in.push_back({i, nullptr, INTERNAL}); }
   void AddInternalBoundaryFaceIntegrator(I *i, Array<int> &m) { in.push_back({i, &m, INTERNAL}); }
   template <typename F> void each(const Mesh &m, F f) const
   {
      for (const auto &a : in)
      {
         for (const Entity &e : m.entities(a.kind)) { if (!a.marker || (*a.marker)[e.attr - 1]) { f(*a.integ, e, a.kind); } }
      }
   }
   std::vector<Added<I>> in;   // owned by MFEM; never freed here
};
class HypreMatrix : public Operator
{
public:
   explicit HypreMatrix(int n) : Operator(n), a(n * n, 0.0) { }
   double &at(int i, int j) { return a[i * height + j]; }
   double at(int i, int j) const { return a[i * height + j]; }
   void Mult(const Vector &x, Vector &y) const override { Mult(1.0, x, 0.0, y); }
   void MultTranspose(const Vector &x, Vector &y) const override { MultTranspose(1.0, x, 0.0, y); }
   HYPRE_Int Mult(double c, const Vector &x, double b, Vector &y) const { apply(c, x, b, y, false); return 0; }
   void MultTranspose(double c, const Vector &x, double b, Vector &y) const { apply(c, x, b, y, true); }
   void apply(double c, const Vector &x, double b, Vector &y, bool t) const
   {
      double r[Space::N];
      for (int i = 0; i < height; ++i)
      {
         r[i] = 0.0;
         for (int j = 0; j < height; ++j) { r[i] += (t ? at(j, i) : at(i, j)) * x(j); }
      }
      for (int i = 0; i < height; ++i) { y(i) = b == 0.0 ? c * r[i] : c * r[i] + b * y(i); }
   }
   HypreMatrix *Transpose() const
   {
      HypreMatrix *t = new HypreMatrix(height);
      for (int i = 0; i < height; ++i) { for (int j = 0; j < height; ++j) { t->at(j, i) = at(i, j); } }
      return t;
   }
   // hypre sets the diagonal to one, what was there goes to the matrix returned
   HypreMatrix *EliminateRowsCols(const Array<int> &rc)
   {
      HypreMatrix *e = new HypreMatrix(height);
      for (int k = 0; k < rc.Size(); ++k)
      {
         const int r = rc[k];
         for (int j = 0; j < height; ++j)
         {
            if (j == r) { continue; }
            e->at(r, j) += at(r, j);
            e->at(j, r) += at(j, r);
            at(r, j) = at(j, r) = 0.0;
         }
         e->at(r, r) += at(r, r) - 1.0;
         at(r, r) = 1.0;
      }
      return e;
   }
   std::vector<double> a;
};
class Handle
{
public:
   explicit Handle(Operator::Type) { }
   Handle(const Handle &) = delete;
   ~Handle() { Clear(); }
   void Clear() { if (own) { delete m; } m = nullptr; own = false; }
   void Reset(HypreMatrix *p, bool o = true) { Clear(); m = p; own = o; }
   HypreMatrix *Ptr() const { return m; }
   HypreMatrix &operator*() const { return *m; }
   template <typename T> T *As() const { return static_cast<T *>(m); }
   void EliminateRowsCols(Handle &A, const Array<int> &rc) { HypreMatrix *e = A.m->EliminateRowsCols(rc); Reset(e, true); }
   void EliminateRows(const Array<int> &r) { for (int k = 0; k < r.Size(); ++k) { for (int j = 0; j < m->Height(); ++j) { m->at(r[k], j) = 0.0; } } }
private:
   HypreMatrix *m = nullptr;
   bool own = false;
};
class NonlinearForm : public Form<NonlinearInteg>
{
public:
   explicit NonlinearForm(Space *f) : fes(f) { }
   NonlinearForm(const NonlinearForm &) = default;
   Space *ParFESpace() const { return fes; }
   void SetEssentialTrueDofs(const Array<int> &t) { t.Copy(ess); }
   const Array<int> &GetEssentialTrueDofs() const { return ess; }
   double GetGridFunctionEnergy(const Vector &u) const { double r = 0.0; each(*fes->mesh, [&](NonlinearInteg &i, const Entity &e, Kind k) { r += i.energy(e, k, u); }); return r; }
   double GetParGridFunctionEnergy(const Vector &u) const { return GetGridFunctionEnergy(u); }
   double GetEnergy(const Function &u) const { return GetGridFunctionEnergy(u); }
   double GetEnergy(const Vector &t) const { Vector u; fes->up(t, u); return GetGridFunctionEnergy(u); }
   void Mult(const Vector &t, Vector &y) const
   {
      Vector u, r(Space::M);
      fes->up(t, u);
      r = 0.0;
      each(*fes->mesh, [&](NonlinearInteg &i, const Entity &e, Kind k) { double o[2]; i.vec(e, k, u, o); for (int a = 0; a < e.n; ++a) { r(e.d[a]) += o[a]; } });
      fes->down(r, y);
      for (int i = 0; i < ess.Size(); ++i) { y(ess[i]) = 0.0; }
   }
   Operator &GetGradient(const Vector &t) const
   {
      Vector u;
      fes->up(t, u);
      HypreMatrix *g = new HypreMatrix(Space::N);
      each(*fes->mesh, [&](NonlinearInteg &i, const Entity &e, Kind k)
      {
         double o[2][2];
         i.grad(e, k, u, o);
         for (int a = 0; a < e.n; ++a) { for (int b = 0; b < e.n; ++b) { g->at(Space::owner(e.d[a]), Space::owner(e.d[b])) += o[a][b]; } }
      });
      grad.reset(g);   // frees the previous one, as MFEM does
      if (ess.Size()) { delete g->EliminateRowsCols(ess); }
      return *g;
   }
   Space *fes;
   Array<int> ess;
   struct Slot { std::unique_ptr<HypreMatrix> p; Slot() = default; Slot(const Slot &) { } void reset(HypreMatrix *m) { p.reset(m); } };
   mutable Slot grad;
};
class LinearForm : public Vector, public Form<LinearInteg>
{
public:
   LinearForm() : fes(nullptr) { }
   explicit LinearForm(Space *f) : Vector(Space::M), fes(f) { Vector::operator=(0.0); }
   Space *ParFESpace() const { return fes; }
   void Assemble()
   {
      Vector::operator=(0.0);
      each(*fes->mesh, [&](LinearInteg &i, const Entity &e, Kind k) { double o[2]; i.vec(e, k, o); for (int a = 0; a < e.n; ++a) { (*this)(e.d[a]) += o[a]; } });
   }
   void ParallelAssemble(Vector &t) const { fes->down(*this, t); }
   Space *fes;
};
}  // namespace model
using ModelSpace = model::Space;
using ModelFunction = model::Function;
using ModelMesh = model::Mesh;
using ModelNonlinearForm = model::NonlinearForm;
using ModelLinearForm = model::LinearForm;
using ModelMatrix = model::HypreMatrix;
using ModelHandle = model::Handle;
using ModelNonlinearInteg = model::NonlinearInteg;
using ModelLinearInteg = model::LinearInteg;
using ModelGFC = model::GFCoefficient;
using ModelVGFC = model::VGFCoefficient;
}  // namespace mfem
#define ParFiniteElementSpace ModelSpace
#define FiniteElementSpace ModelSpace
#define ParGridFunction ModelFunction
#define GridFunction ModelFunction
#define ParMesh ModelMesh
#define ParNonlinearForm ModelNonlinearForm
#define ParLinearForm ModelLinearForm
#define HypreParMatrix ModelMatrix
#define OperatorHandle ModelHandle
#define NonlinearFormIntegrator ModelNonlinearInteg
#define LinearFormIntegrator ModelLinearInteg
#define GridFunctionCoefficient ModelGFC
#define VectorGridFunctionCoefficient ModelVGFC
#endif
