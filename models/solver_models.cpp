// Models of MFEM's iterative solver base classes (symbolic side only), after
// linalg/solvers.cpp of MFEM 4.5.2.
#include <cmath>
#include "mfem.hpp"
#include <cstdlib>
extern "C" int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d) { *d = c; return 0; }
extern "C" int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm) { return 0; }
namespace mfem
{
void mfem_error(const char *) { std::abort(); }
IterativeSolver::IterativeSolver() : Solver(0, true) { oper = NULL; prec = NULL; max_iter = 10; print_level = -1; rel_tol = abs_tol = 0.0; }
IterativeSolver::IterativeSolver(MPI_Comm c) : Solver(0, true), comm(c) { oper = NULL; prec = NULL; max_iter = 10; print_level = -1; rel_tol = abs_tol = 0.0; }
double IterativeSolver::Dot(const Vector &x, const Vector &y) const
{
   double s = 0.0;
   for (int i = 0; i < x.Size(); ++i) { s += x(i) * y(i); }
   return s;
}
void IterativeSolver::SetPrintLevel(int l) { print_level = l; }
void IterativeSolver::SetPrintLevel(PrintLevel) { }
void IterativeSolver::SetPreconditioner(Solver &p) { prec = &p; prec->iterative_mode = false; }
void IterativeSolver::SetOperator(const Operator &op)
{
   oper = &op;
   height = op.Height();
   width = op.Width();
   if (prec) { prec->SetOperator(*oper); }
}
void IterativeSolver::Monitor(int, double, const Vector &, const Vector &, bool) const { }
void NewtonSolver::SetOperator(const Operator &op)
{
   oper = &op;
   height = op.Height();
   width = op.Width();
   r.SetSize(width);
   c.SetSize(width);
}
void NewtonSolver::SetAdaptiveLinRtol(const int type_, const double rtol0_, const double rtol_max_, const double alpha_, const double gamma_)
{
   lin_rtol_type = type_;
   lin_rtol0 = rtol0_;
   lin_rtol_max = rtol_max_;
   alpha = alpha_;
   gamma = gamma_;
}
void NewtonSolver::Mult(const Vector &b, Vector &x) const
{
   int it;
   double norm, norm_goal;
   const bool have_b = (b.Size() == Height());
   if (!iterative_mode) { x = 0.0; }
   ProcessNewState(x);
   oper->Mult(x, r);
   if (have_b) { r -= b; }
   norm = initial_norm = Norm(r);
   norm_goal = std::max(rel_tol * norm, abs_tol);
   prec->iterative_mode = false;
   for (it = 0; true; it++)
   {
      if (norm <= norm_goal) { converged = true; break; }
      if (it >= max_iter) { converged = false; break; }
      grad = &oper->GetGradient(x);
      prec->SetOperator(*grad);
      prec->Mult(r, c);
      const double c_scale = ComputeScalingFactor(x, b);
      if (c_scale == 0.0) { converged = false; break; }
      add(x, -c_scale, c, x);
      ProcessNewState(x);
      oper->Mult(x, r);
      if (have_b) { r -= b; }
      norm = Norm(r);
   }
   final_iter = it;
   final_norm = norm;
}
void DenseMatrixInverse::Init(int) { }   // no factors until an operator is set
}  // namespace mfem
