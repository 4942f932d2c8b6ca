// Models of MFEM's block vectors and operators, time-marching base classes and
// the MPI calls reached on one process (symbolic side only), after MFEM 4.5.2.
#include <cstring>
#include "mfem.hpp"
extern "C"
{
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype, MPI_Op, MPI_Comm) { for (int i = 0; i < n; ++i) { ((double *)r)[i] = ((const double *)s)[i]; } return 0; }
}
namespace mfem
{
void BlockVector::SetBlocks()
{
   for (int i = 0; i < numBlocks; ++i) { blocks[i].MakeRef(*this, blockOffsets[i], blockOffsets[i + 1] - blockOffsets[i]); }
}
BlockVector::BlockVector() : Vector(), numBlocks(0), blockOffsets(NULL), blocks(NULL) { }
BlockVector::BlockVector(const Array<int> &o) : Vector(o.Last()), numBlocks(o.Size() - 1), blockOffsets(o.GetData()) { blocks = new Vector[numBlocks]; SetBlocks(); }
BlockVector::~BlockVector() { delete[] blocks; }
void BlockVector::Update(Vector &d, const Array<int> &o)
{
   NewMemoryAndSize(d.GetMemory(), d.Size(), false);
   blockOffsets = o.GetData();
   if (numBlocks != o.Size() - 1)
   {
      delete[] blocks;
      numBlocks = o.Size() - 1;
      blocks = new Vector[numBlocks];
   }
   SetBlocks();
}
BlockOperator::BlockOperator(const Array<int> &o)
   : Operator(o.Last()), owns_blocks(0), nRowBlocks(o.Size() - 1), nColBlocks(o.Size() - 1), row_offsets(0), col_offsets(0), op(nRowBlocks, nRowBlocks), coef(nRowBlocks, nColBlocks)
{
   op = static_cast<Operator *>(NULL);
   row_offsets.MakeRef(o);
   col_offsets.MakeRef(o);
}
BlockOperator::~BlockOperator() { }
void BlockOperator::SetDiagonalBlock(int i, Operator *o, double c) { SetBlock(i, i, o, c); }
void BlockOperator::SetBlock(int i, int j, Operator *o, double c)
{
   op(i, j) = o;
   coef(i, j) = c;
}
void BlockOperator::Mult(const Vector &x, Vector &y) const
{
   y = 0.0;
   for (int i = 0; i < nRowBlocks; ++i)
   {
      for (int j = 0; j < nColBlocks; ++j)
      {
         if (!op(i, j)) { continue; }
         Vector xb(const_cast<Vector &>(x), col_offsets[j], col_offsets[j + 1] - col_offsets[j]), t(row_offsets[i + 1] - row_offsets[i]);
         op(i, j)->Mult(xb, t);
         for (int k = 0; k < t.Size(); ++k) { y(row_offsets[i] + k) += coef(i, j) * t(k); }
      }
   }
}
void BlockOperator::MultTranspose(const Vector &, Vector &) const { }
void ODESolver::Init(TimeDependentOperator &g)
{
   f = &g;
   mem_type = MemoryType::HOST;
}
void ForwardEulerSolver::Init(TimeDependentOperator &g)
{
   ODESolver::Init(g);
   dxdt.SetSize(f->Width());
}
void ForwardEulerSolver::Step(Vector &x, double &t, double &dt)
{
   f->SetTime(t);
   f->Mult(x, dxdt);
   x.Add(dt, dxdt);
   t += dt;
}
void RK4Solver::Init(TimeDependentOperator &g)
{
   ODESolver::Init(g);
   int n = f->Width();
   y.SetSize(n);
   k.SetSize(n);
   z.SetSize(n);
}
void RK4Solver::Step(Vector &x, double &t, double &dt)
{
   f->SetTime(t);
   f->Mult(x, k);
   add(x, dt / 2, k, y);
   add(x, dt / 6, k, z);
   f->SetTime(t + dt / 2);
   f->Mult(y, k);
   add(x, dt / 2, k, y);
   z.Add(dt / 3, k);
   f->Mult(y, k);
   add(x, dt, k, y);
   z.Add(dt / 3, k);
   f->SetTime(t + dt);
   f->Mult(y, k);
   add(z, dt / 6, k, x);
   t += dt;
}
void ImplicitMidpointSolver::Init(TimeDependentOperator &g)
{
   ODESolver::Init(g);
   k.SetSize(f->Width());
}
void ImplicitMidpointSolver::Step(Vector &x, double &t, double &dt)
{
   f->SetTime(t + dt / 2);
   f->ImplicitSolve(dt / 2, x, k);
   x.Add(dt, k);
   t += dt;
}
}  // namespace mfem
