// MFEM with the parallel spaces, forms and solvers replaced by dense models of
// one small complex: H1 degrees of freedom at the vertices, Nedelec ones at the
// edges, an arbitrary symmetric mass matrix M(theta) for the latter, where theta
// stands for the mesh coordinates. As in MFEM the stiffness matrix is G^T M G,
// the weak divergence -G^T M and the discrete gradient G. Compiled into the
// symbolic and the native side alike.
#pragma once
#include_next <mfem.hpp>
#include <vector>
namespace mfem
{
namespace model
{
enum Kind { NONE, DIFFUSION, WEAKDIV, GRADIENT, OTHER };
struct World
{
   int nh = 0, ne = 0;
   int tail[6], head[6];
   bool boundary[4];
   double M[6][6], dM[6][6];
   double theta = 0.0;
   double G(int e, int v) const { return (head[e] == v ? 1.0 : 0.0) - (tail[e] == v ? 1.0 : 0.0); }
   // the quadrature rule used shows in the matrices, eps(rule) says how
   double mass(int a, int b, double eps) const { return M[a][b] + (eps + theta * (1.0 + eps)) * dM[a][b]; }
   double dmass(int a, int b, double eps) const { return (1.0 + eps) * dM[a][b]; }
   // a matrix of the kind, or its derivative with respect to theta
   double entry(Kind k, int i, int j, double eps, bool d = false) const
   {
      double r = 0.0;
      if (k == GRADIENT) { return d ? 0.0 : G(i, j); }
      if (k == WEAKDIV) { for (int e = 0; e < ne; ++e) { if (G(e, i) != 0.0) { r -= G(e, i) * (d ? dmass(e, j, eps) : mass(e, j, eps)); } } }
      if (k == DIFFUSION)
      {
         for (int e = 0; e < ne; ++e)
         {
            for (int f = 0; f < ne; ++f) { if (G(e, i) != 0.0 && G(f, j) != 0.0) { r += G(e, i) * G(f, j) * (d ? dmass(e, f, eps) : mass(e, f, eps)); } }
         }
      }
      return r;
   }
};
inline World &world() { static World w; return w; }
// integration rules: only which one is asked for matters
struct Rule { int geom, order; };
struct Rules { Rule r[64]; int n = 0; const Rule &Get(int g, int o) { for (int i = 0; i < n; ++i) { if (r[i].geom == g && r[i].order == o) { return r[i]; } } r[n].geom = g; r[n].order = o; return r[n++]; } };
inline Rules &rules() { static Rules r; return r; }
// without a rule each kind of integrator takes one of its own
inline double eps(Kind k, const Rule *r) { return r ? r->order / 64.0 + r->geom / 256.0 : k == DIFFUSION ? 0.1875 : 0.3125; }
struct Integ
{
   Kind kind;
   const Rule *rule = nullptr;
   explicit Integ(Kind k = OTHER) : kind(k) { }
   virtual ~Integ() { }
   void SetIntRule(const Rule *r) { rule = r; }
   void SetIntegrationRule(const Rule &r) { rule = &r; }
   const Rule *GetIntRule() const { return rule; }
};
struct Diffusion : Integ { Diffusion() : Integ(DIFFUSION) { } };
struct WeakDivergence : Integ { WeakDivergence() : Integ(WEAKDIV) { } };
struct Interpolator : Integ { explicit Interpolator(Kind k = OTHER) : Integ(k) { } };
struct Gradient : Interpolator { Gradient() : Interpolator(GRADIENT) { } };
struct Curl : Interpolator { };
struct Divergence : Interpolator { };
struct LinearInteg
{
   virtual ~LinearInteg() { }
   const Rule *rule = nullptr;
   void SetIntRule(const Rule *r) { rule = r; }
   void SetIntegrationRule(const Rule &r) { rule = &r; }
   const Rule *GetIntRule() const { return rule; }
   virtual double value() const = 0;
};
struct Element { int GetGeomType() const { return Geometry::TETRAHEDRON; } };
class Mesh;
class Space;
class Function : public Vector
{
public:
   Function() : fes(nullptr) { }
   explicit Function(Space *f);
   Function(const Function &f) : Vector(f), fes(f.fes) { }
   Function &operator=(const Function &f) { fes = f.fes; Vector::operator=(f); return *this; }
   Function &operator=(double c) { Vector::operator=(c); return *this; }
   Function &operator=(const Vector &v) { Vector::operator=(v); return *this; }
   Space *ParFESpace() const { return fes; }
   Space *FESpace() const { return fes; }
   Space *fes;
};
class Mesh
{
public:
   Array<int> attributes, bdr_attributes;
   Function *nodes = nullptr;
   Function *GetNodes() { return nodes; }
   MPI_Comm GetComm() const { return MPI_COMM_NULL; }
};
class Space
{
public:
   Space(Mesh *m, int n) : mesh(m), size(n) { }
   Mesh *GetParMesh() const { return mesh; }
   Mesh *GetMesh() const { return mesh; }
   int GetVSize() const { return size; }
   int GetTrueVSize() const { return size; }
   int TrueVSize() const { return size; }
   MPI_Comm GetComm() const { return MPI_COMM_NULL; }
   const Element *GetFE(int) const { static Element e; return &e; }
   // the boundary has two attributes, the first vertex of it bears the first one
   void GetEssentialTrueDofs(const Array<int> &bdr, Array<int> &t) const
   {
      t.SetSize(0);
      bool first = true;
      for (int v = 0; v < size; ++v)
      {
         if (!world().boundary[v]) { continue; }
         if (bdr[first ? 0 : 1]) { t.Append(v); }
         first = false;
      }
   }
   Mesh *mesh;
   int size;
};
inline Function::Function(Space *f) : Vector(f->GetVSize()), fes(f) { Vector::operator=(0.0); }
// dense matrix that a form assembles; as in MFEM assembling adds to what is there
class Matrix
{
public:
   std::vector<double> a;
   int h = 0, w = 0;
   bool set = false;
   double operator()(int i, int j) const { return a[i * w + j]; }
   void clear() { set = false; }
   void add(Kind k, double eps)
   {
      for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { a[i * w + j] += world().entry(k, i, j, eps); } }
   }
   void start(int hh, int ww) { if (!set) { h = hh; w = ww; a.assign(h * w, 0.0); set = true; } }
   void AddMult(const Vector &x, Vector &y, double c = 1.0) const
   {
      for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { y(i) += c * (*this)(i, j) * x(j); } }
   }
   void AddMultTranspose(const Vector &x, Vector &y, double c = 1.0) const
   {
      for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { y(j) += c * (*this)(i, j) * x(i); } }
   }
};
// what all forms have in common
class Form
{
public:
   Form(Space *d, Space *r) : dom(d), ran(r) { }
   void AddDomainIntegrator(Integ *i) { in.push_back(i); }
   void AddDomainInterpolator(Integ *i) { in.push_back(i); }
   void Assemble(int = 1)
   {
      mat.start(ran->GetVSize(), dom->GetVSize());
      for (Integ *i : in) { mat.add(i->kind, eps(i->kind, i->rule)); }
   }
   void Finalize(int = 1) { }
   void Update() { mat.clear(); sys.clear(); }
   int Height() const { return ran->GetVSize(); }
   int Width() const { return dom->GetVSize(); }
   void Mult(const Vector &x, Vector &y) const { y = 0.0; mat.AddMult(x, y); }
   void AddMult(const Vector &x, Vector &y, const double c = 1.0) const { mat.AddMult(x, y, c); }
   void MultTranspose(const Vector &x, Vector &y) const { y = 0.0; mat.AddMultTranspose(x, y); }
   void AddMultTranspose(const Vector &x, Vector &y, const double c = 1.0) const { mat.AddMultTranspose(x, y, c); }
   Space *dom, *ran;
   std::vector<Integ *> in;
   Matrix mat, sys;   // sys: the parallel matrix, kept until Update()
};
class HypreMatrix
{
public:
   Matrix m;
   HypreMatrix *Transpose() const
   {
      HypreMatrix *t = new HypreMatrix;
      t->m.start(m.w, m.h);
      for (int i = 0; i < m.h; ++i) { for (int j = 0; j < m.w; ++j) { t->m.a[j * m.h + i] = m(i, j); } }
      return t;
   }
};
class BilinearForm : public Form
{
public:
   explicit BilinearForm(Space *f) : Form(f, f) { }
   void FormLinearSystem(const Array<int> &ess, Vector &x, Vector &b, HypreMatrix &A, Vector &X, Vector &B, int = 0)
   {
      if (!sys.set) { sys = mat; }
      X = x;
      B = b;
      const int n = sys.h;
      std::vector<bool> e(n, false);
      for (int i = 0; i < ess.Size(); ++i) { e[ess[i]] = true; }
      A.m = sys;
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j)
         {
            if (e[i]) { A.m.a[i * n + j] = i == j ? 1.0 : 0.0; }
            else if (e[j]) { B(i) -= sys(i, j) * X(j); A.m.a[i * n + j] = 0.0; }
         }
      }
      for (int i = 0; i < n; ++i) { if (e[i]) { B(i) = X(i); } }
   }
   void RecoverFEMSolution(const Vector &X, const Vector &, Vector &x) { x = X; }
};
class MixedForm : public Form { public: MixedForm(Space *d, Space *r) : Form(d, r) { } };
class LinearOperator : public Form { public: LinearOperator(Space *d, Space *r) : Form(d, r) { } };
class LinearForm : public Vector
{
public:
   LinearForm() { }
   explicit LinearForm(Space *f) { Update(f); }
   void Update(Space *f) { SetSize(f->GetVSize()); Vector::operator=(0.0); }
   void AddDomainIntegrator(LinearInteg *i) { in.push_back(i); }
   void Assemble() { Vector::operator=(0.0); for (LinearInteg *i : in) { (*this)(0) += i->value(); } }
   std::vector<LinearInteg *> in;
};
class Amg
{
public:
   void SetOperator(const HypreMatrix &) { }
   void SetPrintLevel(int) { }
};
// solves exactly when asked for a tight tolerance and given enough iterations,
// otherwise is off by the tolerance; systems of up to two unknowns not eliminated
class Pcg
{
public:
   explicit Pcg(MPI_Comm) { }
   void SetOperator(const HypreMatrix &a) { A = &a.m; }
   void SetTol(double t) { tol = t; }
   void SetAbsTol(double) { }
   void SetMaxIter(int n) { maxit = n; }
   void SetPrintLevel(int) { }
   void SetPreconditioner(Amg &) { }
   void Mult(const Vector &b, Vector &x) const
   {
      const Matrix &m = *A;
      int f[4], k = 0;
      for (int i = 0; i < m.h; ++i)
      {
         bool one = m(i, i) == 1.0;
         for (int j = 0; j < m.h; ++j) { one = one && (i == j || m(i, j) == 0.0); }
         if (world().boundary[i] && one) { x(i) = b(i); }
         else { f[k++] = i; }
      }
      if (k == 1) { x(f[0]) = b(f[0]) / m(f[0], f[0]); }
      if (k == 2)
      {
         const double d = m(f[0], f[0]) * m(f[1], f[1]) - m(f[0], f[1]) * m(f[1], f[0]);
         x(f[0]) = (m(f[1], f[1]) * b(f[0]) - m(f[0], f[1]) * b(f[1])) / d;
         x(f[1]) = (m(f[0], f[0]) * b(f[1]) - m(f[1], f[0]) * b(f[0])) / d;
      }
      if (tol > 1e-10 || maxit < 50) { for (int i = 0; i < k; ++i) { x(f[i]) += 1e-3; } }
   }
   const Matrix *A = nullptr;
   double tol = 1.0;
   int maxit = 0;
};
}  // namespace model
using ModelSpace = model::Space;
using ModelFunction = model::Function;
using ModelBilinearForm = model::BilinearForm;
using ModelMixedForm = model::MixedForm;
struct ModelLinearOperator : model::LinearOperator { using model::LinearOperator::LinearOperator; };
using ModelLinearForm = model::LinearForm;
using ModelMatrix = model::HypreMatrix;
using ModelAmg = model::Amg;
using ModelPcg = model::Pcg;
using ModelRule = model::Rule;
using ModelInteg = model::Integ;
using ModelDiffusion = model::Diffusion;
using ModelWeakDivergence = model::WeakDivergence;
using ModelGradient = model::Gradient;
using ModelCurl = model::Curl;
using ModelDivergence = model::Divergence;
using ModelLinearInteg = model::LinearInteg;
using ModelMesh = model::Mesh;
inline model::Rules &modelRules() { return model::rules(); }
}  // namespace mfem
#define ParFiniteElementSpace ModelSpace
#define FiniteElementSpace ModelSpace
#define ParGridFunction ModelFunction
#define GridFunction ModelFunction
#define ParMesh ModelMesh
#define ParBilinearForm ModelBilinearForm
#define ParMixedBilinearForm ModelMixedForm
#define ParDiscreteLinearOperator ModelLinearOperator
#define ParLinearForm ModelLinearForm
#define HypreParMatrix ModelMatrix
#define HypreBoomerAMG ModelAmg
#define HyprePCG ModelPcg
#define IntegrationRule ModelRule
#define IntRules modelRules()
#define BilinearFormIntegrator ModelInteg
#define LinearFormIntegrator ModelLinearInteg
#define DiffusionIntegrator ModelDiffusion
#define VectorFEWeakDivergenceIntegrator ModelWeakDivergence
#define GradientInterpolator ModelGradient
#define CurlInterpolator ModelCurl
#define DivergenceInterpolator ModelDivergence
