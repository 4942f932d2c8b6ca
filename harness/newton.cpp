#include <cmath>
#include <limits>
#include <vector>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#define private public
#define protected public
#include "inexact_newton.hpp"
#include "relaxed_newton.hpp"
#undef private
#undef protected
#include "mfem_extensions.hpp"
#include "utils.hpp"
#include "sym.h"
#ifndef VERIF_SYMBOLIC
static const bool mpi_up = []() { MPI_Init(nullptr, nullptr); atexit([]() { MPI_Finalize(); }); return true; }();
#endif
using mfem::DenseMatrix;
using mfem::Vector;
static const int MAXEV = 24;
static double max2(double a, double b) { return a > b ? a : b; }
// A nonlinear operator whose residuals are arbitrary: each evaluation returns
// fresh values and is recorded.  Optionally not a number from some evaluation on.
struct Op : public mfem::Operator
{
   int n;
   mutable int evals = 0, grads = 0;
   bool lean = false;
   int nan_at = -1, cap = MAXEV;
   mutable Vector x[MAXEV], f[MAXEV], gx[MAXEV];
   mutable DenseMatrix J[MAXEV];
   Op(int n_) : mfem::Operator(n_), n(n_) { }
   void Mult(const Vector &a, Vector &y) const override
   {
      sym_assume(evals < cap);
      x[evals] = a;
      f[evals].SetSize(n);
      // the same point gives the same residual
      bool again = evals > 0;
      for (int i = 0; i < n && again; ++i) { again = x[evals - 1](i) == a(i); }
      for (int i = 0; i < n && again; ++i) { f[evals](i) = f[evals - 1](i); }
      for (int i = 0; i < n && !again; ++i) { f[evals](i) = i && evals ? 0.0 : evals == nan_at ? std::numeric_limits<double>::quiet_NaN() : sym_real_in("f", 8 * evals + i, -4.0, 4.0); }
      y = f[evals];
      ++evals;
   }
   mfem::Operator &GetGradient(const Vector &a) const override
   {
      gx[grads] = a;
      J[grads].SetSize(n);
      for (int i = 0; i < n; ++i)
      {
         for (int j = 0; j < n; ++j) { J[grads](i, j) = lean && (i != 0 || j != n - 1) ? (i == j ? 2.0 : -0.25) : sym_real_in("J", 16 * grads + 4 * i + j, i == j ? 1.0 : -0.25, i == j ? 3.0 : 0.25); }
      }
      return J[grads++];
   }
   // index of the latest evaluation at a, up to evaluation `to`
   int at(const Vector &a, int to) const
   {
      for (int k = to; k >= 0; --k)
      {
         bool same = true;
         for (int i = 0; i < n; ++i) { same = same && x[k](i) == a(i); }
         if (same) { return k; }
      }
      return -1;
   }
};
// the inner solver: any correction, recorded together with what it was given
struct Lin : public mfem::Solver
{
   int n;
   mutable int calls = 0;
   mutable bool zero_guess = true;
   mutable Vector rhs[MAXEV], c[MAXEV];
   const mfem::Operator *op[MAXEV] = {}, *cur = nullptr;
   mutable const mfem::Operator *used[MAXEV] = {};
   Lin(int n_) : mfem::Solver(n_), n(n_) { }
   void SetOperator(const mfem::Operator &o) override { cur = &o; }
   void Mult(const Vector &b, Vector &y) const override
   {
      rhs[calls] = b;
      used[calls] = cur;
      zero_guess = zero_guess && !iterative_mode;
      c[calls].SetSize(n);
      for (int i = 0; i < n; ++i) { c[calls](i) = sym_real_in("c", 8 * calls + i, i ? -2.0 : 0.25, 2.0); }
      y.SetSize(n);
      y = c[calls];
      ++calls;
   }
};
static double nrm(const Vector &f, const Vector &b)
{
   double s = 0.0;
   for (int i = 0; i < f.Size(); ++i) { double d = f(i) - (b.Size() ? b(i) : 0.0); s += d * d; }
   return sqrt(s);
}
struct Problem
{
   int n;
   Op op;
   Lin lin;
   Vector b, x;
   double rel, abs;
   Problem(int n_, bool rhs, bool lean = false) : n(n_), op(n_), lin(n_), x(n_)
   {
      rel = lean ? 0.0 : sym_real_in("rel", 0, 0.01, 0.5);
      abs = lean ? 0.0 : sym_real_in("abs", 0, 0.01, 0.5);
      if (lean) { rel = 0.0625; abs = 0.03125; op.lean = true; }
      for (int i = 0; i < n; ++i) { x(i) = lean ? 0.5 - i : sym_real_in("x", i, -2.0, 2.0); }
      if (rhs)
      {
         b.SetSize(n);
         for (int i = 0; i < n; ++i) { b(i) = sym_real_in("b", i, -2.0, 2.0); }
      }
   }
};
// what any Newton method has to be truthful about, after Mult
static void truthful(const Problem &p, bool conv, int iters, double fin, int maxit, double target, const char *lab)
{
   int k = p.op.at(p.x, p.op.evals - 1);
   sym_assert(k >= 0, "the residual was evaluated at the vector returned");
   if (k < 0) { return; }
   double r = nrm(p.op.f[k], p.b);
   sym_assert_eq(fin, r, "the final norm is that of the residual at the vector returned");
   if (conv) { sym_assert(r <= target, "convergence is reported only when the target is met"); sym_reach("converged"); }
   else { sym_assert(!(r <= target), "failure is reported only when the target is missed"); sym_reach("failed"); }
   sym_assert(iters <= maxit, "no more iterations than allowed");
   sym_assert(p.lin.calls == p.op.grads, "one linear solve for each linearisation");
   sym_assert(p.lin.zero_guess, "the linear solve starts from zero");
   for (int j = 0; j < p.lin.calls; ++j)
   {
      sym_assert(p.lin.used[j] == &p.op.J[j], "the linear solver gets the current linearisation");
      int e = -1;
      for (int q = 0; q < p.op.evals && e < 0; ++q)
      {
         bool same = true;
         for (int i = 0; i < p.n; ++i) { same = same && p.op.x[q](i) == p.op.gx[j](i); }
         if (same) { e = q; }
      }
      sym_assert(e >= 0, "the linearisation is at an iterate");
      if (e < 0) { continue; }
      for (int i = 0; i < p.n; ++i) { sym_assert_eq(p.lin.rhs[j](i), p.op.f[e](i) - (p.b.Size() ? p.b(i) : 0.0), "the right-hand side is the residual there"); }
   }
}
#ifdef VERIF_THOROUGH
static const int IT = 2;
#else
static const int IT = 1;
#endif
// ---------------------------------------------------------- inexact Newton
static void inexact(int n, bool rhs, int nan_at, int maxit, int cap)
{
   const bool lean = cap < MAXEV && nan_at < 0;
   Problem p(n, rhs, lean);
   p.op.nan_at = nan_at;
   p.op.cap = cap;
   const bool warm = lean || sym_choice("iterative_mode", 0, 0, 1);
   double eta0 = lean ? 0.1 : sym_real_in("eta0", 0, 0.001, 0.1), etam = lean ? 0.9 : sym_real_in("etamax", 0, 0.1, 0.9), t = sym_real_in("t", 0, 0.0001, 0.5);
   mfem::InexactNewton nw(eta0, etam, t);
   nw.iterative_mode = warm;
   nw.SetRelTol(p.rel);
   nw.SetAbsTol(p.abs);
   nw.SetMaxIter(maxit);
   nw.SetPrintLevel(-1);
   nw.SetOperator(p.op);
   nw.SetSolver(p.lin);
   Vector x0(p.x);
   if (!warm) { x0 = 0.0; }
   sym_allow_abort();
   nw.Mult(p.b, p.x);
   double r0 = nrm(p.op.f[0], p.b);
   for (int i = 0; i < n; ++i) { sym_assert_eq(p.op.x[0](i), x0(i), "the first residual is at the initial guess"); }
   truthful(p, nw.GetConverged(), nw.GetNumIterations(), nw.GetFinalNorm(), maxit, max2(p.rel * r0, p.abs), "");
   sym_assert(nw.GetNumIterations() == p.lin.calls, "one iteration for each linear solve");
   if (cap == MAXEV) { sym_assert(nw.eta <= etam && nw.eta > 0.0, "the forcing parameter stays within its limits"); }
   // evaluations: 0, then for each step the trials and the accepted point once more
   int e = 0;
   Vector xk(x0);
   for (int k = 0; k < p.lin.calls; ++k)
   {
      double rk = nrm(p.op.f[e], p.b), s = 1.0;
      double slope = 0.0;
      for (int i = 0; i < n; ++i)
      {
         double jc = 0.0;
         for (int j = 0; j < n; ++j) { jc += p.op.J[k](i, j) * p.lin.c[k](j); }
         slope -= jc * (p.op.f[e](i) - (rhs ? p.b(i) : 0.0));
      }
      int q = e + 1;
      while (true)
      {
         for (int i = 0; i < n; ++i) { sym_assert_eq(p.op.x[q](i), xk(i) - s * p.lin.c[k](i), "trial points lie on the correction"); }
         double rq = nrm(p.op.f[q], p.b);
         // the accepted point is evaluated again
         bool again = q + 1 < p.op.evals;
         for (int i = 0; i < n && again; ++i) { again = p.op.x[q + 1](i) == p.op.x[q](i); }
         if (again) { sym_assert(lean || rq <= (1.0 - 0.5 * t) * rk, "the residual decreases sufficiently"); e = q + 1; sym_reach(q == e ? "step" : "step"); break; }
         if (q + 1 >= p.op.evals) { sym_fail("the search ends with an accepted step"); return; }
         sym_assert(!(rq <= (1.0 - t) * rk), "a sufficient step is accepted");
         // next trial: minimiser of the parabola, safeguarded
         double a = 0.5 * rq * rq - 0.5 * rk * rk - s * slope, th;
         if (rq != rq) { th = 0.1; }
         else
         {
            th = -s * slope / (2.0 * a);
            th = th > 0.1 ? th : 0.1;
            th = th < 0.5 ? th : 0.5;
         }
         s *= th;
         ++q;
         sym_reach("backtrack");
      }
      for (int i = 0; i < n; ++i) { xk(i) = xk(i) - s * p.lin.c[k](i); }
   }
   sym_observe("x", p.x(0));
}
extern "C" void h_inexact_1() { inexact(1, false, -1, sym_choice("max_iter", 0, 0, IT), MAXEV); }
extern "C" void h_inexact_rhs() { inexact(1, true, -1, 1, MAXEV); }
extern "C" void h_inexact_2() { inexact(2, false, -1, 1, 4); }
extern "C" void h_inexact_search()
{
#ifdef VERIF_THOROUGH
   inexact(1, false, -1, 2, 5);
#else
   inexact(1, false, -1, 2, 4);
#endif
}
extern "C" void h_inexact_nan() { inexact(1, false, 1, 1, 4); }
// ---------------------------------------------------------- relaxed Newton
static void relaxed(int n, bool rhs, int nan_at, int trials = 2)
{
   Problem p(n, rhs);
   p.op.nan_at = nan_at;
   nlohmann::json opt;
   const int kind = trials == 2 ? sym_choice("options", 0, 0, 2) : 2;
   double mu = 1e-4, hi = 0.9, lo = 0.1;
   if (kind == 1) { opt["linesearch"] = "backtracking"; }
   if (kind == 2)
   {
      mu = 0.25;
      hi = 0.5;
      lo = 0.25;
      opt["linesearch"]["type"] = "backtracking";
      opt["linesearch"]["mu"] = mu;
      opt["linesearch"]["rhohi"] = hi;
      opt["linesearch"]["rholo"] = lo;
      opt["linesearch"]["interp-order"] = 2;
      opt["linesearch"]["maxiter"] = 1;
   }
   miso::RelaxedNewton nw(MPI_COMM_SELF, opt);
   auto *ls = dynamic_cast<miso::BacktrackingLineSearch *>(nw.ls.get());
   sym_assert(ls != nullptr, "the line search is the named one");
   sym_assert(ls->max_iter == (kind == 2 ? 1 : 10) && ls->interp_order == (kind == 2 ? 2 : 3), "line-search options reach the line search");
   sym_assert(ls->mu == mu && ls->rho_hi == hi && ls->rho_lo == lo, "line-search options reach the line search");
   ls->max_iter = trials - 1;
   nw.iterative_mode = true;
   nw.SetRelTol(p.rel);
   nw.SetAbsTol(p.abs);
   const int maxit = trials == 2 ? sym_choice("max_iter", 0, 0, 1) : 1;
   nw.SetMaxIter(maxit);
   nw.SetOperator(p.op);
   nw.SetSolver(p.lin);
   Vector x0(p.x);
   nw.Mult(p.b, p.x);
   double r0 = nrm(p.op.f[0], p.b);
   for (int i = 0; i < n; ++i) { sym_assert_eq(p.op.x[0](i), x0(i), "the first residual is at the initial guess"); }
   bool stuck = false;
   if (p.lin.calls == 1)
   {
      // phi = norm of the residual; its slope at zero
      double slope = 0.0;
      for (int i = 0; i < n; ++i)
      {
         double jc = 0.0;
         for (int j = 0; j < n; ++j) { jc += p.op.J[0](i, j) * p.lin.c[0](j); }
         slope -= jc * (p.op.f[0](i) - (rhs ? p.b(i) : 0.0)) / r0;
      }
      double s = 1.0;
      stuck = true;
      for (int q = 1; q <= trials && q < p.op.evals; ++q)
      {
         // trial points lie on the correction
         s = (x0(0) - p.op.x[q](0)) / p.lin.c[0](0);
         if (q == 1) { sym_assert_eq(p.op.x[1](0), x0(0) - p.lin.c[0](0), "the full step is tried first"); s = 1.0; }
         for (int i = 1; i < n; ++i) { sym_assert_eq((p.op.x[q](i) - x0(i)) * p.lin.c[0](0), (p.op.x[q](0) - x0(0)) * p.lin.c[0](i), "trial points lie on the correction"); }
         if (q == 2) { sym_assert(s <= hi && s >= lo, "the reduced step lies within its limits"); }
         double rq = nrm(p.op.f[q], p.b);
         // not decided here: the sliver around the threshold
         const double lim = r0 + mu * s * slope;
         if (rq > lim - 1e-6 && rq < lim + 1e-6) { return; }
         if (rq <= lim)
         {
            stuck = false;
            sym_reach("step");
            for (int i = 0; i < n; ++i) { sym_assert_eq(p.x(i), p.op.x[q](i), "a sufficient step is taken"); }
            break;
         }
      }
      if (stuck)
      {
         sym_reach("stuck");
         sym_assert(!nw.GetConverged(), "a failed search is reported as failure");
         for (int i = 0; i < n; ++i) { sym_assert_eq(p.x(i), x0(i), "a failed search leaves the vector unchanged"); }
      }
   }
   if (!stuck) { truthful(p, nw.GetConverged(), nw.GetNumIterations(), nw.GetFinalNorm(), maxit, max2(p.rel * r0, p.abs), ""); }
   sym_observe("x", p.x(0));
}
extern "C" void h_relaxed_1() { relaxed(1, false, -1); }
extern "C" void h_relaxed_rhs() { relaxed(1, true, -1); }
extern "C" void h_relaxed_2() { relaxed(2, false, -1, 1); }
extern "C" void h_relaxed_nan() { relaxed(1, false, 1); }
extern "C" void h_relaxed_options()
{
   nlohmann::json opt;
   const int kind = sym_choice("kind", 0, 0, 1);
   if (kind == 0) { opt["linesearch"] = "golden"; }
   else { opt["linesearch"]["type"] = "golden"; }
   bool refused = false;
   try { miso::RelaxedNewton nw(MPI_COMM_SELF, opt); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused, "unknown line searches are refused");
   sym_reach("done");
}
// ------------------------------------------------------------ construction
struct NullSolver : public mfem::Solver
{
   void SetOperator(const mfem::Operator &) override { }
   void Mult(const Vector &, Vector &) const override { }
};
struct NewtonPeek : public mfem::NewtonSolver
{
   static double rel(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::rel_tol); }
   static double abs(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::abs_tol); }
   static int it(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::max_iter); }
   static int pl(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::print_level); }
   static mfem::Solver *lin(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::prec); }
   static int ty(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::lin_rtol_type); }
   static double r0(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::lin_rtol0); }
   static double rm(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::lin_rtol_max); }
   static double al(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::alpha); }
   static double ga(const mfem::NewtonSolver &s) { return s.*(&NewtonPeek::gamma); }
};
extern "C" void h_construct()
{
   const int kind = sym_choice("kind", 0, 0, 4), full = sym_choice("full", 0, 0, 1);
   static const char *names[5] = {"newton", "inexactnewton", "relaxednewton", "none", "magic"};
   nlohmann::json o;
   o["type"] = names[kind];
   o["reltol"] = 0.03125;
   o["abstol"] = 0.0009765625;
   o["maxiter"] = 17;
   o["printlevel"] = 1;
   if (full)
   {
      o["inexacttype"] = 1;
      o["rtol0"] = 0.25;
      o["rtol_max"] = 0.75;
      o["alpha"] = 0.375;
      o["gamma"] = 1.5;
   }
   NullSolver lin;
   std::unique_ptr<mfem::NewtonSolver> s;
   bool refused = false;
   try { s = miso::constructNonlinearSolver(MPI_COMM_SELF, o, lin); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused == (kind == 4), "exactly the unknown solvers are refused");
   sym_assert((s == nullptr) == (kind >= 3), "the solver none is no solver");
   if (!s) { sym_reach("none"); return; }
   sym_assert(NewtonPeek::rel(*s) == 0.03125, "relative tolerance");
   sym_assert(NewtonPeek::abs(*s) == 0.0009765625, "absolute tolerance");
   sym_assert(NewtonPeek::it(*s) == 17, "maximum number of iterations");
   sym_assert(NewtonPeek::pl(*s) == 1, "print level");
   sym_assert(NewtonPeek::lin(*s) == &lin, "linear solver");
   sym_assert((dynamic_cast<miso::RelaxedNewton *>(s.get()) != nullptr) == (kind == 2), "type of the solver");
   sym_assert(NewtonPeek::ty(*s) == (kind == 1 ? (full ? 1 : 2) : 0), "type of the forcing term");
   if (kind == 1)
   {
      sym_assert(NewtonPeek::r0(*s) == (full ? 0.25 : 0.5), "initial forcing term");
      sym_assert(NewtonPeek::rm(*s) == (full ? 0.75 : 0.9), "largest forcing term");
      double a = NewtonPeek::al(*s) - (full ? 0.375 : 0.5 * (1.0 + sqrt(5.0)));
      sym_assert(a < 1e-12 && a > -1e-12, "exponent of the forcing term");
      sym_assert(NewtonPeek::ga(*s) == (full ? 1.5 : 1.0), "factor of the forcing term");
   }
   sym_reach("done");
}
