#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <variant>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#include "symfs.hpp"
#define private public
#define protected public
#include "abstract_solver.hpp"
// compiled here so that its files are the model's
#include "abstract_solver.cpp"
#undef private
#undef protected
#include "default_options.hpp"
#include "sym.h"
#ifndef VERIF_SYMBOLIC
static const bool mpi_up = []() { MPI_Init(nullptr, nullptr); atexit([]() { MPI_Finalize(); }); return true; }();
#endif
using mfem::Vector;
using miso::MISOInputs;
static double R(const char *n, int i, double lo = -2.0, double hi = 2.0) { return sym_real_in(n, i, lo, hi); }
static Vector vec(const char *nm, int n)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = R(nm, i); }
   return v;
}
// ------------------------------------------------------------ the residual
struct Log
{
   int sets = 0, evals = 0, lins = 0, jvp[2] = {0, 0}, vjp[2] = {0, 0}, adj = 0, opts = 0;
   std::string last, wrt, order;
   double time[8], dt[8], mach = -1.0, aoa = -1.0;
   Vector at, seed;
   mfem::Solver *solver = nullptr;
};
struct Res
{
   int n;
   Log *log;
};
int getSize(const Res &r) { return r.n; }
MPI_Comm getMPIComm(const Res &) { return MPI_COMM_SELF; }
void setInputs(Res &r, const MISOInputs &in)
{
   Log &l = *r.log;
   l.order += 's';
   if (l.sets < 8) { miso::setValueFromInputs(in, "time", l.time[l.sets]); miso::setValueFromInputs(in, "dt", l.dt[l.sets]); }
   ++l.sets;
   miso::setValueFromInputs(in, "mach", l.mach);
   miso::setValueFromInputs(in, "aoa", l.aoa);
}
void setOptions(Res &r, const nlohmann::json &) { ++r.log->opts; }
void evaluate(Res &r, const MISOInputs &in, Vector &v)
{
   r.log->order += 'e';
   ++r.log->evals;
   Vector u;
   miso::setVectorFromInputs(in, "state", u, true, true);
   v.SetSize(r.n);
   for (int i = 0; i < r.n; ++i) { v(i) = r.log->mach * u(i) + r.log->aoa; }
}
void linearize(Res &r, const MISOInputs &in) { ++r.log->lins; miso::setVectorFromInputs(in, "state", r.log->at, true, true); }
mfem::Operator &getJacobian(Res &, const MISOInputs &, const std::string &) { throw miso::MISOException("no Jacobian"); }
double jacobianVectorProduct(Res &r, const Vector &d, const std::string &w) { ++r.log->jvp[0]; r.log->wrt = w; r.log->seed = d; return 3.0 * d(0); }
void jacobianVectorProduct(Res &r, const Vector &d, const std::string &w, Vector &o) { ++r.log->jvp[1]; r.log->wrt = w; r.log->seed = d; o.Add(5.0, d); }
double vectorJacobianProduct(Res &r, const Vector &d, const std::string &w) { ++r.log->vjp[0]; r.log->wrt = w; r.log->seed = d; return 7.0 * d(0); }
void vectorJacobianProduct(Res &r, const Vector &d, const std::string &w, Vector &o) { ++r.log->vjp[1]; r.log->wrt = w; r.log->seed = d; o.Add(11.0, d); }
void setUpAdjointSystem(Res &r, mfem::Solver &s, const MISOInputs &in, Vector &bar, Vector &adj)
{
   r.log->order += 'a';
   ++r.log->adj;
   r.log->solver = &s;
   miso::setVectorFromInputs(in, "state", r.log->at, true, true);
   // boundary rows are overwritten by the residuals, in place
   bar(0) = 0.5;
   adj(0) = 0.25;
}
// ------------------------------------------------------------- the outputs
struct Out
{
   Log *log;
   int n;
   double scale;
};
int getSize(const Out &o) { return o.n; }
void setInputs(Out &o, const MISOInputs &in)
{
   ++o.log->sets;
   o.log->order += 's';
   miso::setValueFromInputs(in, "mach", o.log->mach);
}
void setOptions(Out &o, const nlohmann::json &opt) { ++o.log->opts; o.scale = opt.value("scale", o.scale); }
double calcOutput(Out &o, const MISOInputs &) { o.log->order += 'e'; ++o.log->evals; return o.scale * o.log->mach; }
void calcOutput(Out &o, const MISOInputs &, Vector &v)
{
   o.log->order += 'v';
   for (int i = 0; i < v.Size(); ++i) { v(i) = o.scale * o.log->mach + i; }
}
double calcOutputPartial(Out &o, const std::string &w, const MISOInputs &) { o.log->wrt = w; o.log->order += 'p'; return o.scale; }
void calcOutputPartial(Out &o, const std::string &w, const MISOInputs &, Vector &p) { o.log->wrt = w; o.log->order += 'q'; p.SetSize(2); p = o.scale; }
double jacobianVectorProduct(Out &o, const Vector &d, const std::string &w) { o.log->wrt = w; o.log->order += 'j'; return o.scale * d(0); }
void jacobianVectorProduct(Out &o, const Vector &d, const std::string &w, Vector &r) { o.log->wrt = w; o.log->order += 'J'; r(0) += 2.0 * d(0); r(1) += o.scale * d(0); }
double vectorJacobianProduct(Out &o, const Vector &d, const std::string &w) { o.log->wrt = w; o.log->order += 'b'; return o.scale * d(0); }
void vectorJacobianProduct(Out &o, const Vector &d, const std::string &w, Vector &r) { o.log->wrt = w; o.log->order += 'B'; r(0) += 2.0 * d(0); r(1) += o.scale * d(0); }
// -------------------------------------------------------------- the solvers
struct Slopes : public mfem::Solver
{
   int n;
   mutable int calls = 0;
   mutable bool empty = true, warm = false;
   mutable Vector k[8], guess[8], rhs;
   Slopes(int n_) : mfem::Solver(n_), n(n_) { }
   void SetOperator(const mfem::Operator &) override { }
   void Mult(const Vector &b, Vector &y) const override
   {
      empty = empty && b.Size() == 0;
      warm = iterative_mode;
      rhs = b;
      if (calls >= 8) { sym_fail("too many solves"); return; }
      guess[calls] = y;
      k[calls].SetSize(n);
      y.SetSize(n);
      for (int i = 0; i < n; ++i) { k[calls](i) = R("k", 8 * calls + i); y(i) = k[calls](i); }
      ++calls;
   }
};
struct Newton : public mfem::NewtonSolver
{
   Slopes &s;
   Newton(Slopes &s_) : s(s_) { }
   void Mult(const Vector &b, Vector &y) const override { s.iterative_mode = iterative_mode; s.Mult(b, y); }
};
struct Solver : public miso::AbstractSolver2
{
   Log hooks;
   int nadd = 0;
   Log outlog[3];
   int ncall = 0;
   std::string seq;
   double ht[16], hdt[16];
   int hit[16];
   Vector hs[16];
   Solver(const nlohmann::json &o) : AbstractSolver2(MPI_COMM_SELF, o) { }
   void note(char c, int it, double t, double d, const Vector &s)
   {
      if (ncall >= 16) { sym_fail("too many hooks"); return; }
      seq += c;
      hit[ncall] = it;
      ht[ncall] = t;
      hdt[ncall] = d;
      hs[ncall++] = s;
   }
   void initialHook(const Vector &s) override { AbstractSolver2::initialHook(s); note('i', 0, 0.0, 0.0, s); }
   void iterationHook(int it, double t, double d, const Vector &s) override { AbstractSolver2::iterationHook(it, t, d, s); note('n', it, t, d, s); }
   void terminalHook(int it, double t, const Vector &s) override { AbstractSolver2::terminalHook(it, t, s); note('t', it, t, 0.0, s); }
   void addOutput(const std::string &o, const nlohmann::json &opt) override
   {
      if (nadd < 3) { outputs.emplace(o, miso::MISOOutput(Out{&outlog[nadd], nadd + 1, opt.contains("scale") ? opt["scale"].get<double>() : 1.0})); ++nadd; }
   }
};
static nlohmann::json quiet()
{
   nlohmann::json o;
   o["print-options"] = false;
   o["silent"] = true;
   return o;
}
// ------------------------------------------------------------ time marching
static void march(int maxit, bool logs)
{
   const int n = 1;
   const double t0 = logs ? 0.0 : R("t0", 0, -1.0, 1.0), span = logs ? 1.0 : R("span", 0, 0.125, 2.0), dt = logs ? 0.5 : R("dt", 0, 0.25, 2.0), tf = t0 + span;
   nlohmann::json o = quiet();
   o["time-dis"]["type"] = "RK1";
   o["time-dis"]["t-initial"] = t0;
   o["time-dis"]["t-final"] = tf;
   o["time-dis"]["dt"] = dt;
   o["time-dis"]["max-iter"] = maxit;
   const int exact = logs ? 0 : sym_choice("exact", 0, 0, 2);
   if (exact) { o["time-dis"]["exact-t-final"] = exact == 2; }
   Solver s(o);
   Log log;
   s.spatial_res = std::make_unique<miso::MISOResidual>(Res{n, &log});
   s.space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*s.spatial_res));
   Slopes slopes(n);
   s.ode = std::make_unique<miso::FirstOrderODE>(*s.space_time_res, s.options["time-dis"], slopes);
   const int init = logs ? sym_choice("initial", 0, 0, 1) : 1, each = logs ? sym_choice("each", 0, 0, 1) : 0, fin = logs ? sym_choice("final", 0, 0, 1) : 1;
   miso::LoggingOptions lo;
   lo.initial_state = init;
   lo.each_timestep = each;
   lo.final_state = fin;
   if (logs) { s.addLogger(miso::ASCIILogger(), std::move(lo)); }
   Vector u = vec("u", n), x(u);
   const double mach = R("mach", 0, 0.0, 2.0);
   s.solveForState(MISOInputs({{"mach", mach}}), u);
   sym_assert(log.mach == mach, "the inputs reach the residual");
   sym_assert(s.options["time-dis"]["dt"].get<double>() == dt && s.options["time-dis"]["t-initial"].get<double>() == t0, "marching does not change the options");
   const int steps = slopes.calls;
   sym_assert(steps <= maxit && (int)s.seq.size() == steps + 2 && s.seq[0] == 'i' && s.seq[steps + 1] == 't', "the hooks are called at the start, before each step and at the end");
   double t = t0;
   const double slack = 1e-13;
   for (int i = 0; i < steps; ++i)
   {
      sym_assert(s.seq[i + 1] == 'n' && s.hit[i + 1] == i, "the steps are numbered");
      sym_assert(t < tf, "no step starts at or past the final time");
      const double h = exact == 1 ? dt : dt <= tf - t ? dt : tf - t;
      sym_assert_eq(s.ht[i + 1], t, "time of a step");
      sym_assert_eq(s.hdt[i + 1], h, "length of a step");
      sym_assert_eq(log.time[i + 1], t, "the time of a step reaches the residual");
      sym_assert_eq(s.hs[i + 1](0), x(0), "the state before a step");
      x(0) += h * slopes.k[i](0);
      t += h;
   }
   sym_assert(steps == maxit || t >= tf - slack, "the run ends at the final time, or at the limit of steps");
   if (exact != 1) { sym_assert(t <= tf, "the final time is not passed"); }
   sym_assert_eq(u(0), x(0), "the state is that of the last step");
   sym_assert_eq(s.ht[steps + 1], t, "the final hook has the final time");
   sym_assert_eq(s.hs[steps + 1](0), x(0), "the final hook has the final state");
   if (logs)
   {
      double tr = -1.0;
      Vector v;
      if (fin)
      {
         // under the last step's number
         miso::ASCIILogger::readState("state", s.hit[steps + 1], 0, tr, v);
         sym_assert(tr == 1.0 && v.Size() == n, "the final state is logged with the final time");
         sym_assert_eq(v(0), x(0), "the final state is logged");
      }
      if (each && !fin)
      {
         miso::ASCIILogger::readState("state", 1, 0, tr, v);
         sym_assert(tr == 0.5 && v.Size() == n, "each state is logged with its time");
         sym_assert_eq(v(0), s.hs[2](0), "each state is logged");
      }
      if (init && !each)
      {
         miso::ASCIILogger::readState("state", 0, 0, tr, v);
         sym_assert(tr == 0.0 && v.Size() == n, "the initial state is logged with the time zero");
         sym_assert_eq(v(0), s.hs[0](0), "the initial state is logged");
      }
   }
   sym_reach(steps == maxit ? "limit" : "final time");
}
#ifdef VERIF_THOROUGH
extern "C" void h_march() { march(sym_choice("maxit", 0, 0, 6), false); }
#else
extern "C" void h_march() { march(sym_choice("maxit", 0, 0, 4), false); }
#endif
extern "C" void h_march_log() { march(4, true); }
// steady: one nonlinear solve from the state given
extern "C" void h_steady()
{
   const int n = 2;
   Solver s(quiet());
   Log log;
   s.spatial_res = std::make_unique<miso::MISOResidual>(Res{n, &log});
   Slopes sol(n);
   s.nonlinear_solver = std::make_unique<Newton>(sol);
   s.nonlinear_solver->iterative_mode = false;
   Vector u = vec("u", n), u0(u);
   const double mach = R("mach", 0, 0.0, 2.0);
   const bool inputs = sym_choice("inputs", 0, 0, 1);
   if (inputs) { s.solveForState(MISOInputs({{"mach", mach}}), u); }
   else { s.solveForState(u); }
   sym_assert(!inputs || log.mach == mach, "the inputs reach the residual");
   sym_assert(sol.calls == 1 && sol.empty && sol.warm, "one solve, from the state given");
   for (int i = 0; i < n; ++i) { sym_assert(sol.guess[0](i) == u0(i) && u(i) == sol.k[0](i), "the state is the solution"); }
   sym_reach("done");
}
extern "C" void h_adjoint()
{
   const int n = 2;
   Solver s(quiet());
   Log log;
   s.spatial_res = std::make_unique<miso::MISOResidual>(Res{n, &log});
   const bool unsteady = sym_choice("unsteady", 0, 0, 1);
   Slopes slopes(n);
   if (unsteady)
   {
      s.space_time_res = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(*s.spatial_res));
      s.ode = std::make_unique<miso::FirstOrderODE>(*s.space_time_res, s.options["time-dis"], slopes);
   }
   auto *adj = new Slopes(n);
   s.adj_solver.reset(adj);
   Vector u = vec("u", n), bar = vec("bar", n), b0(bar), a = vec("a", n), a0(a);
   bool refused = false;
   try { s.solveForAdjoint(u, bar, a); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused == unsteady, "exactly the unsteady adjoint is refused");
   if (unsteady)
   {
      int k = 0;
      try { s.linearize(MISOInputs({{"state", u}})); } catch (const miso::MISOException &) { ++k; }
      try { s.jacobianVectorProduct(u, "x"); } catch (const miso::MISOException &) { ++k; }
      try { s.jacobianVectorProduct(u, "x", a); } catch (const miso::MISOException &) { ++k; }
      try { s.vectorJacobianProduct(u, "x"); } catch (const miso::MISOException &) { ++k; }
      try { s.vectorJacobianProduct(u, "x", a); } catch (const miso::MISOException &) { ++k; }
      sym_assert(k == 5, "products with the unsteady Jacobian are refused");
      for (int i = 0; i < n; ++i) { sym_assert(a(i) == a0(i), "a refused product leaves its output alone"); }
      sym_reach("refused");
      return;
   }
   sym_assert(log.order == "sa" && log.solver == adj && adj->calls == 1, "inputs, then the system, then one solve");
   for (int i = 0; i < n; ++i)
   {
      sym_assert(bar(i) == b0(i) && u(i) == log.at(i), "the right-hand side given is left alone");
      sym_assert(adj->rhs(i) == (i == 0 ? 0.5 : b0(i)), "the system solved is the one set up");
      sym_assert(adj->guess[0](i) == (i == 0 ? 0.25 : a0(i)), "the solver sees the adjoint set up");
      sym_assert(a(i) == adj->k[0](i), "the adjoint is the solution");
   }
   sym_reach("done");
}
extern "C" void h_residual()
{
   const int n = 1;
   Solver s(quiet());
   Log log;
   bool refused = false;
   try { s.getStateSize(); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused, "a size without a residual is refused");
   if (sym_choice("unsteady only", 0, 0, 1))
   {
      s.space_time_res = std::make_unique<miso::MISOResidual>(Res{3, &log});
      sym_assert(s.getStateSize() == 3, "size of the state");
      sym_reach("done");
      return;
   }
   s.spatial_res = std::make_unique<miso::MISOResidual>(Res{n, &log});
   sym_assert(s.getStateSize() == n && s.getFieldSize("state") == n && s.getFieldSize("residual") == n && s.getFieldSize("adjoint") == n && s.getFieldSize("other") == 0, "sizes by name");
   Vector u = vec("u", n), r(n);
   const double mach = R("mach", 0, 0.25, 2.0), aoa = R("aoa", 0, -1.0, 1.0);
   const MISOInputs in{{"state", u}, {"mach", mach}, {"aoa", aoa}};
   s.calcResidual(in, r);
   sym_assert(log.order == "se", "the inputs are set before the residual is evaluated");
   const double v = mach * u(0) + aoa;
   sym_assert_eq(r(0), v, "the residual of the inputs");
   const double nr = sym_choice("by state", 0, 0, 1) ? s.calcResidualNorm(u) : s.calcResidualNorm(in);
   sym_assert(nr >= 0.0, "a norm is not negative");
   sym_assert_eq(nr * nr, v * v, "the norm of the residual");
   // products are passed on
   Vector d = vec("d", 1), o = vec("o", 1), o0(o);
   s.linearize(in);
   sym_assert(log.lins == 1 && log.at(0) == u(0), "linearisation at the inputs");
   sym_assert(s.jacobianVectorProduct(d, "p") == 3.0 * d(0) && log.wrt == "p", "forward product with respect to a scalar");
   sym_assert(s.vectorJacobianProduct(d, "q") == 7.0 * d(0) && log.wrt == "q", "reverse product with respect to a scalar");
   s.jacobianVectorProduct(d, "r", o);
   sym_assert(log.wrt == "r" && log.jvp[1] == 1, "forward product with respect to a field");
   sym_assert_eq(o(0), o0(0) + 5.0 * d(0), "forward products accumulate");
   s.vectorJacobianProduct(d, "t", o);
   sym_assert(log.wrt == "t" && log.vjp[1] == 1, "reverse product with respect to a field");
   sym_assert_eq(o(0), o0(0) + 16.0 * d(0), "reverse products accumulate");
   sym_reach("done");
}
extern "C" void h_set_state()
{
   const int n = 1;
   Solver s(quiet());
   Vector u = vec("u", n), u0(u);
   const double a = R("a", 0);
   s.setState([a](Vector &v) { v(0) = a + 1.0; }, u);
   sym_assert_eq(u(0), a + 1.0, "the state is set by the function");
   Vector w = vec("w", n), w0(w);
   const double e = s.calcStateError([a](Vector &v) { v(0) = a; }, w);
   sym_assert(e >= 0.0, "an error is not negative");
   sym_assert_eq(e * e, (w0(0) - a) * (w0(0) - a), "error against a function");
   const double f = s.calcStateError(u0, w);
   sym_assert(f >= 0.0, "an error is not negative");
   sym_assert_eq(f * f, (w0(0) - u0(0)) * (w0(0) - u0(0)), "error against a vector");
   sym_assert(w(0) == w0(0), "the state is left alone");
   bool refused = false;
   Vector big(2);
   big = 0.0;
   try { s.calcStateError(big, w); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused, "a vector of another size is refused");
   sym_reach("done");
}
// ------------------------------------------------------- outputs by name
extern "C" void h_outputs()
{
   static const char *names[] = {"drag", "lift", "dra"};
   Solver s(quiet());
   nlohmann::json o;
   const double sc = R("scale", 0);
   o["scale"] = sc;
   s.createOutput("drag");
   s.createOutput("lift", o);
   const int which = sym_choice("which", 0, 0, 2), what = sym_choice("what", 0, 0, 9), len = sym_choice("len", 0, 1, 2);
   const double mach = R("mach", 0), scale = which == 0 ? 1.0 : sc;
   const MISOInputs in{{"mach", mach}};
   Vector d = vec("d", 1), v = vec("v", len), v0(v);
   const double p0 = R("p", 0);
   double p = p0;
   bool refused = false;
   try
   {
      switch (what)
      {
         case 0: sym_assert(s.getOutputSize(names[which]) == which + 1, "size of the output"); break;
         case 1: sym_assert_eq(s.calcOutput(names[which], in), scale * mach, "value of the output"); break;
         case 2: s.calcOutput(names[which], in, v); break;
         case 3: s.calcOutputPartial(names[which], "x", in, p); sym_assert_eq(p, p0 + scale, "partials accumulate"); break;
         case 4: s.calcOutputPartial(names[which], "x", in, v); sym_assert(v.Size() == 2 && v(0) == scale, "partial with respect to a field"); break;
         case 5: s.outputJacobianVectorProduct(names[which], in, d, "x", v); break;
         case 6: s.outputVectorJacobianProduct(names[which], in, d, "x", v); break;
         case 7:
         {
            nlohmann::json o2;
            o2["scale"] = 4.0;
            s.setOutputOptions(names[which], o2);
            sym_assert_eq(s.calcOutput(names[which], in), 4.0 * mach, "options reach the output");
            break;
         }
         case 8:
            s.createOutput(names[which], o);
            sym_assert(s.nadd == 3 && s.outputs.size() == 3, "a new output is added");
            break;
         default: break;
      }
   }
   catch (const miso::MISOException &) { refused = true; }
   if (what == 8) { sym_assert(refused == (which < 2), "an output that exists is not created again"); }
   else if (what < 8) { sym_assert(refused == (which == 2), "exactly an output that does not exist is refused"); }
   for (int i = 0; i < 2; ++i)
   {
      Log &l = s.outlog[i];
      if (i != which || what == 8) { sym_assert(l.order.empty() && l.opts == 0, "no other output is touched"); }
      else if (what >= 1 && what <= 6)
      {
         static const char *e1[] = {"se", "se", "sp", "sq", "sj", "sb"}, *e2[] = {"se", "sv", "sp", "sq", "sJ", "sB"};
         sym_assert(l.order == (len == 1 ? e1 : e2)[what - 1], "inputs are set before the output is used");
         if (what >= 3) { sym_assert(l.wrt == "x", "the variable named is differentiated with respect to"); }
      }
   }
   if (which < 2 && what == 2)
   {
      sym_assert(v.Size() == len, "size of the vector output");
      for (int i = 0; i < len; ++i) { sym_assert_eq(v(i), scale * mach + i, "vector output"); }
   }
   if (which < 2 && (what == 5 || what == 6))
   {
      if (len == 1) { sym_assert_eq(v(0), v0(0) + scale * d(0), "products accumulate"); }
      else
      {
         sym_assert_eq(v(0), v0(0) + 2.0 * d(0), "products accumulate");
         sym_assert_eq(v(1), v0(1) + scale * d(0), "products accumulate");
      }
   }
   if (refused)
   {
      sym_assert(p == p0, "a refused call changes nothing");
      for (int i = 0; i < len; ++i) { sym_assert(v(i) == v0(i), "a refused call changes nothing"); }
   }
   sym_reach(refused ? "refused" : "done");
}
// ------------------------------------------------------- options by name
using json = nlohmann::json;
// the leaf at a/b (or a), null when absent
static json leaf(const json &d, const std::string &a, const std::string &b)
{
   if (!d.contains(a)) { return json(); }
   if (b.empty() || !d[a].is_object()) { return b.empty() ? d[a] : json(); }
   return d[a].contains(b) ? d[a][b] : json();
}
static const char *KEYS[][2] = {{"time-dis", "dt"}, {"flow-param", "mach"}, {"lin-solver", "reltol"}, {"steady", ""}, {"mesh", "refine"}, {"new-section", "x"}, {"time-dis", "new-key"}};
static const int NK = 7;
static void overlay(bool later)
{
   const json before = miso::default_options;
   json user = quiet();
   const double x = R("value", 0), y = R("value", 1);
   const int i = sym_choice("first", 0, 0, NK - 1), j = sym_choice("second", 0, 0, NK - 1);
   auto put = [&](json &d, int k, double v) { if (KEYS[k][1][0]) { d[KEYS[k][0]][KEYS[k][1]] = v; } else { d[KEYS[k][0]] = v; } };
   put(user, i, x);
   put(user, j, y);
   json kept = user;
   std::unique_ptr<Solver> s;
   if (later)
   {
      s = std::make_unique<Solver>(quiet());
      s->setOptions(user);
   }
   else { s = std::make_unique<Solver>(user); }
   const json &got = s->getOptions();
   sym_assert(user == kept, "the options given are left alone");
   sym_assert(miso::default_options == before, "the defaults are left alone");
   for (int k = 0; k < NK; ++k)
   {
      const json v = leaf(got, KEYS[k][0], KEYS[k][1]);
      if (k == j) { sym_assert(v.is_number() && v.get<double>() == y, "a key named has the value given"); }
      else if (k == i) { sym_assert(v.is_number() && v.get<double>() == x, "a key named has the value given"); }
      else { sym_assert(v == leaf(before, KEYS[k][0], KEYS[k][1]), "a key not named keeps its default"); }
   }
   // everything else is as it was
   int extra = 0;
   for (auto it = got.begin(); it != got.end(); ++it)
   {
      if (!before.contains(it.key())) { ++extra; continue; }
      const json &d = before[it.key()];
      if (!d.is_object()) { if (it.key() != "print-options" && it.key() != "steady") { sym_assert(it.value() == d, "an option not named keeps its default"); } continue; }
      for (auto q = d.begin(); q != d.end(); ++q)
      {
         bool named = false;
         for (int k : {i, j}) { named = named || (it.key() == KEYS[k][0] && q.key() == KEYS[k][1]); }
         if (!named) { sym_assert(it.value().contains(q.key()) && it.value()[q.key()] == q.value(), "an option not named keeps its default"); }
      }
      sym_assert(it.value().size() == d.size() + ((it.key() == "time-dis" && (i == 6 || j == 6)) ? 1 : 0), "no option is added to a section");
   }
   sym_assert(extra == 1 + (i == 5 || j == 5 ? 1 : 0), "no section is added");
   sym_reach("done");
}
extern "C" void h_options() { overlay(false); }
extern "C" void h_options_later() { overlay(true); }
