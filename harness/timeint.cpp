#include <cmath>
#include <memory>
#include <sstream>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#define private public
#define protected public
#include "evolver.hpp"
#include "matrix_operators.hpp"
#include "mfem_extensions.hpp"
#include "ode.hpp"
#undef private
#undef protected
#include "utils.hpp"
#include "sym.h"
#ifndef VERIF_SYMBOLIC
static const bool mpi_up = []() { MPI_Init(nullptr, nullptr); atexit([]() { MPI_Finalize(); }); return true; }();
#endif
using mfem::DenseMatrix;
using mfem::Vector;
using miso::MISOInputs;
static double R(const char *n, int i, double lo = -2.0, double hi = 2.0) { return sym_real_in(n, i, lo, hi); }
static Vector vec(const char *nm, int n)
{
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = R(nm, i); }
   return v;
}
static DenseMatrix mat(const char *nm, int m, int n)
{
   DenseMatrix a(m, n);
   for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) { a(i, j) = R(nm, 4 * i + j); } }
   return a;
}
static double coef(const char *nm, double s)
{
   switch (sym_choice(nm, 0, 0, 2)) { case 0: return 0.0; case 1: return 1.0; default: return s; }
}
// ------------------------------------------------------- sums of operators
static void sum(int m, int n)
{
   DenseMatrix A = mat("A", m, n), B = mat("B", m, n), A0(A), B0(B);
   const double a = coef("ca", R("a", 0, 1.0625, 3.0)), b = coef("cb", R("b", 0, -3.0, -0.25)), a2 = coef("ca2", R("a2", 0, -3.0, -0.5));
   miso::SumOfOperators both(a, A, b, B), later(m, n), &s = sym_choice("later", 0, 0, 1) ? later : both;
   if (&s == &later) { s.Add(a, A, b, B); }
   sym_assert(s.Height() == m && s.Width() == n, "sizes of the sum");
   for (int pass = 0; pass < 2; ++pass)
   {
      // the second time with other coefficients and the operators exchanged
      if (pass == 1) { s.Add(a2, B, b, A); }
      Vector x = vec(pass ? "z" : "x", n), x0(x), y(m);
      y = 7.0;
      s.Mult(x, y);
      sym_assert(y.Size() == m, "size of the product");
      for (int i = 0; i < m; ++i)
      {
         double r = 0.0;
         for (int j = 0; j < n; ++j) { r += ((pass ? a2 * B0(i, j) : a * A0(i, j)) + b * (pass ? A0(i, j) : B0(i, j))) * x0(j); }
         sym_assert_eq(y(i), r, "a sum of operators is the sum");
         for (int j = 0; j < n; ++j) { sym_assert(A(i, j) == A0(i, j) && B(i, j) == B0(i, j), "the operators are left alone"); }
      }
      for (int j = 0; j < n; ++j) { sym_assert(x(j) == x0(j), "the argument is left alone"); }
   }
   sym_reach("done");
}
extern "C" void h_sum() { sum(2, 2); }
extern "C" void h_sum_wide() { sum(1, 2); }
extern "C" void h_sum_tall() { sum(2, 1); }
extern "C" void h_sum_sizes()
{
   const int m = sym_choice("m", 0, 1, 2), n = sym_choice("n", 0, 1, 2);
   DenseMatrix A(2, 1), B(m, n);
   A = 1.0;
   B = 1.0;
   bool refused = false;
   try { miso::SumOfOperators s(1.0, A, 1.0, B); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused == (m != 2 || n != 1), "operators of different sizes are refused");
   sym_reach("done");
}
// ------------------------------------------------------------- a residual
// R_i(u) = sum_j M_ij u_j + h q_i u_i^2 + f_i
struct Spatial
{
   int n;
   double h;
   DenseMatrix M;
   Vector q, f;
   DenseMatrix jac;
   std::vector<DenseMatrix> block;
   int evals = 0, sets = 0, jacs = 0;
   std::string wrt;
   Vector at;
   double time = -1.0, dt = -1.0;
   double ent = 0.0, dent = 0.0, sup = 0.0;
   Vector es, ed;
   double et = -1.0, edt = -1.0;
   nlohmann::json opt;
   Spatial(int n_, double h_) : n(n_), h(h_), M(mat("M", n_, n_)), q(vec("q", n_)), f(vec("f", n_)) { }
   void residual(const Vector &u, Vector &r) const
   {
      r.SetSize(n);
      for (int i = 0; i < n; ++i)
      {
         double s = f(i) + h * q(i) * u(i) * u(i);
         for (int j = 0; j < n; ++j) { s += M(i, j) * u(j); }
         r(i) = s;
      }
   }
   double djac(const Vector &u, int i, int j) const { return M(i, j) + (i == j ? 2.0 * h * q(i) * u(i) : 0.0); }
};
int getSize(const Spatial &s) { return s.n; }
MPI_Comm getMPIComm(const Spatial &) { return MPI_COMM_SELF; }
void setInputs(Spatial &s, const MISOInputs &in)
{
   ++s.sets;
   miso::setValueFromInputs(in, "time", s.time);
   miso::setValueFromInputs(in, "dt", s.dt);
   miso::setVectorFromInputs(in, "state", s.at, true);
}
void setOptions(Spatial &s, const nlohmann::json &o) { s.opt = o; }
void evaluate(Spatial &s, const MISOInputs &in, Vector &r)
{
   ++s.evals;
   Vector u;
   miso::setVectorFromInputs(in, "state", u, true, true);
   s.residual(u, r);
}
mfem::Operator &getJacobian(Spatial &s, const MISOInputs &in, const std::string &wrt)
{
   ++s.jacs;
   s.wrt = wrt;
   Vector u;
   miso::setVectorFromInputs(in, "state", u, true, true);
   s.jac.SetSize(s.n);
   for (int i = 0; i < s.n; ++i) { for (int j = 0; j < s.n; ++j) { s.jac(i, j) = s.djac(u, i, j); } }
   return s.jac;
}
mfem::Operator &getJacobianBlock(Spatial &s, const MISOInputs &in, int b)
{
   Vector u;
   miso::setVectorFromInputs(in, "state", u, true, true);
   s.block.resize(s.n);
   s.block[b].SetSize(1);
   s.block[b](0, 0) = s.djac(u, b, b);
   return s.block[b];
}
static void seen(Spatial &s, const MISOInputs &in)
{
   s.es.SetSize(0);
   s.ed.SetSize(0);
   s.et = s.edt = -1.0;
   miso::setVectorFromInputs(in, "state", s.es, true);
   miso::setVectorFromInputs(in, "state_dot", s.ed, true);
   miso::setValueFromInputs(in, "time", s.et);
   miso::setValueFromInputs(in, "dt", s.edt);
}
double calcEntropy(Spatial &s, const MISOInputs &in) { seen(s, in); return s.ent; }
double calcEntropyChange(Spatial &s, const MISOInputs &in) { seen(s, in); return s.dent; }
double calcSupplyRate(Spatial &s, const MISOInputs &in) { seen(s, in); return s.sup; }
// ---------------------------------------------------- matrix-free Jacobian
extern "C" void h_jacfree()
{
   const int n = 2;
   miso::MISOResidual res(Spatial(n, 0.0));
   const Spatial &sp = miso::getConcrete<Spatial>(res);
   const bool expl = sym_choice("explicit", 0, 0, 1);
   DenseMatrix E(n);
   E = 0.0;
   if (expl) { E = mat("E", n, n); }
   DenseMatrix E0(E);
   std::unique_ptr<miso::JacobianFree> jf;
   if (expl) { jf = std::make_unique<miso::JacobianFree>(res, E); }
   else { jf = std::make_unique<miso::JacobianFree>(res); }
   double s = 1.0;
   const int k = sym_choice("scaling", 0, 0, 3);
   if (k == 1) { s = 0.0; }
   if (k >= 2) { s = k == 2 ? R("s", 0, 0.25, 0.9375) : R("sm", 0, -3.0, -0.25); }
   if (k) { jf->setScaling(s); }
   Vector u = vec("u", n), x = vec("x", n), u0(u), x0(x), y(n);
   if (sym_choice("how", 0, 0, 1)) { jf->setState(u); }
   else { jf->setState(MISOInputs({{"state", u}})); }
   // the state is stored: later changes of the vector given do not matter
   for (int i = 0; i < n; ++i) { u(i) = 9.0; y(i) = 7.0; }
   for (int pass = 0; pass < 2; ++pass)
   {
      jf->Mult(x, y);
      for (int i = 0; i < n; ++i)
      {
         double r = 0.0;
         for (int j = 0; j < n; ++j) { r += (s * sp.M(i, j) + E0(i, j)) * x0(j); }
         sym_assert_near(y(i), r, 1e-12, "the matrix-free product is the Jacobian times the vector");
         sym_assert(x(i) == x0(i), "the argument is left alone");
      }
   }
   sym_reach("done");
}
// for a nonlinear residual the product is a difference quotient in the
// direction of the argument, with a short step
extern "C" void h_jacfree_nonlinear()
{
   const int n = 2;
   miso::MISOResidual res(Spatial(n, 1.0));
   const Spatial &sp = miso::getConcrete<Spatial>(res);
   miso::JacobianFree jf(res);
   Vector u = vec("u", n), x = vec("x", n), y(n);
   x(0) = R("x0", 0, 0.5, 2.0);
   jf.setState(u);
   jf.Mult(x, y);
   for (int i = 0; i < n; ++i)
   {
      double r = 0.0;
      for (int j = 0; j < n; ++j) { r += sp.djac(u, i, j) * x(j); }
      // error: h q x_i^2 with h <= sqrt(1e-10 / |x|^2)
      double e = y(i) - r;
      sym_assert(e * e * (x * x) <= 1.0001e-10 * sp.q(i) * sp.q(i) * x(i) * x(i) * x(i) * x(i), "the difference quotient is close to the derivative");
   }
   sym_reach("done");
}
extern "C" void h_jacfree_block()
{
   const int n = 2;
   miso::MISOResidual res(Spatial(n, 1.0));
   const Spatial &sp = miso::getConcrete<Spatial>(res);
   mfem::Array<int> off(3);
   off[0] = 0;
   off[1] = 1;
   off[2] = 2;
   DenseMatrix E0(1), E1(1);
   E0(0, 0) = R("E", 0);
   E1(0, 0) = R("E", 1);
   const double e0 = E0(0, 0), e1 = E1(0, 0);
   mfem::BlockOperator E(off);
   E.SetBlock(0, 0, &E0);
   E.SetBlock(1, 1, &E1);
   const bool expl = sym_choice("explicit", 0, 0, 1);
   miso::JacobianFree with(res, E), without(res);
   miso::JacobianFree &jf = expl ? with : without;
   const double s = R("s", 0, -3.0, 3.0);
   jf.setScaling(s);
   Vector u = vec("u", n);
   jf.setState(u);
   for (int pass = 0; pass < 2; ++pass)
   {
      for (int b = 0; b < n; ++b)
      {
         auto *d = dynamic_cast<DenseMatrix *>(&jf.getDiagonalBlock(b));
         sym_assert(d != nullptr && d->Height() == 1 && d->Width() == 1, "a diagonal block is a matrix");
         if (d == nullptr) { return; }
         sym_assert_eq((*d)(0, 0), s * sp.djac(u, b, b) + (expl ? (b ? e1 : e0) : 0.0), "a diagonal block is the block of the operator");
      }
      sym_assert(E0(0, 0) == e0 && E1(0, 0) == e1, "the explicit part is left alone");
   }
   // the whole operator with the explicit part
   sym_reach("done");
}
extern "C" void h_jacfree_refuse()
{
   miso::MISOResidual res(Spatial(1, 0.0));
   DenseMatrix E(1);
   E = 1.0;
   miso::JacobianFree jf(res, E);
   Vector u = vec("u", 1);
   jf.setState(u);
   bool refused = false;
   try { jf.getDiagonalBlock(0); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused, "an explicit part without blocks is refused");
   refused = false;
   try { jf.setState(MISOInputs({{"other", u}})); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused, "a state that is missing is refused");
   sym_reach("done");
}
// ------------------------------------------------- implicit stage equation
// kind: 0 identity mass, 1 block mass
static void stage(int kind)
{
   const int n = 2;
   miso::MISOResidual res(Spatial(n, kind == 0 ? 1.0 : 0.0));
   const Spatial &sp = miso::getConcrete<Spatial>(res);
   mfem::Array<int> off(3);
   off[0] = 0;
   off[1] = 1;
   off[2] = 2;
   DenseMatrix B0(1), B1(1);
   B0(0, 0) = R("mass", 0, 0.5, 2.0);
   B1(0, 0) = R("mass", 1, 0.5, 2.0);
   mfem::BlockOperator B(off);
   B.SetBlock(0, 0, &B0);
   B.SetBlock(1, 1, &B1);
   auto mass = [&](int i, int j) { return i != j ? 0.0 : kind == 0 ? 1.0 : i ? B1(0, 0) : B0(0, 0); };
   std::unique_ptr<miso::MISOResidual> st;
   if (kind == 0) { st = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(res)); }
   else { st = std::make_unique<miso::MISOResidual>(miso::TimeDependentResidual(res, &B)); }
   sym_assert(getSize(*st) == n && st->Height() == n && st->Width() == n, "size of the stage equation");
   for (int pass = 0; pass < 2; ++pass)
   {
      const char *un = pass ? "u2" : "u", *kn = pass ? "k2" : "k", *dn = pass ? "dt2" : "dt";
      Vector u = vec(un, n), k = vec(kn, n), u0(u), k0(k), r(n);
      double dt = sym_choice("explicit", pass, 0, 1) ? 0.0 : R(dn, 0, 0.01, 0.9375), t = R("time", pass);
      setInputs(*st, MISOInputs({{"state", u}, {"state_dot", k}, {"dt", dt}, {"time", t}}));
      sym_assert(sp.time == t, "the time reaches the spatial residual");
      Vector v(n), s(n);
      for (int i = 0; i < n; ++i) { v(i) = u0(i) + dt * k0(i); }
      sp.residual(v, s);
      r = 7.0;
      evaluate(*st, MISOInputs({{"state", k}}), r);
      for (int i = 0; i < n; ++i)
      {
         double e = s(i);
         for (int j = 0; j < n; ++j) { e += mass(i, j) * k0(j); }
         sym_assert_eq(r(i), e, "the stage equation is mass times slope plus residual at the stage");
         sym_assert(u(i) == u0(i) && k(i) == k0(i), "state and slope are left alone");
      }
      // the slope is read again at every evaluation
      Vector kk(k);
      for (int i = 0; i < n; ++i) { k(i) = R("l", 2 * pass + i); v(i) = u0(i) + dt * k(i); }
      sp.residual(v, s);
      st->Mult(k, r);
      for (int i = 0; i < n; ++i)
      {
         double e = s(i);
         for (int j = 0; j < n; ++j) { e += mass(i, j) * k(j); }
         sym_assert_eq(r(i), e, "the stage equation follows the slope");
      }
      // its Jacobian
      mfem::Operator &J = st->GetGradient(k);
      Vector x = vec(pass ? "y" : "x", n), y(n);
      y = 7.0;
      J.Mult(x, y);
      for (int i = 0; i < n; ++i)
      {
         double e = 0.0;
         for (int j = 0; j < n; ++j) { e += (mass(i, j) + dt * sp.djac(v, i, j)) * x(j); }
         sym_assert_near(y(i), e, 1e-12, "the Jacobian is that of the stage equation");
      }
      if (kind == 0)
      {
         // the same by differentiating the residual computed
         for (int i = 0; i < n; ++i)
         {
            double e = 0.0;
            for (int j = 0; j < n; ++j) { e += sym_diff(r(i), k(j)) * x(j); }
            sym_assert_eq(y(i), e, "the Jacobian is the derivative of the residual");
         }
      }
   }
   nlohmann::json o;
   o["key"] = 3;
   setOptions(*st, o);
   sym_assert(sp.opt["key"].get<int>() == 3, "options reach the spatial residual");
   sym_reach("done");
}
// as an operator the stage equation is evaluated at its argument
extern "C" void h_stage_operand()
{
   miso::MISOResidual res(Spatial(1, 0.0));
   const Spatial &sp = miso::getConcrete<Spatial>(res);
   miso::MISOResidual st(miso::TimeDependentResidual{res});
   Vector u = vec("u", 1), k = vec("k", 1), l = vec("l", 1), r(1);
   double dt = R("dt", 0, 0.01, 0.9375), t = 0.0;
   setInputs(st, MISOInputs({{"state", u}, {"state_dot", k}, {"dt", dt}, {"time", t}}));
   st.Mult(l, r);
   sym_assert_eq(r(0), l(0) + sp.M(0, 0) * (u(0) + dt * l(0)) + sp.f(0), "the stage equation is evaluated at its argument");
   sym_reach("done");
}
extern "C" void h_stage_identity() { stage(0); }
extern "C" void h_stage_block() { stage(1); }
// ------------------------------------------------- ODESystemOperator
extern "C" void h_system()
{
   const int n = 2;
   miso::MISOResidual res(Spatial(n, 1.0));
   const Spatial &sp = miso::getConcrete<Spatial>(res);
   miso::ODESystemOperator op(res);
   Vector x = vec("x", n), k = vec("k", n), r(n), v(n), s(n);
   const double dt = R("dt", 0, -1.0, 1.0);
   op.setParameters(dt, &x);
   op.Mult(k, r);
   for (int i = 0; i < n; ++i) { v(i) = x(i) + dt * k(i); }
   sp.residual(v, s);
   for (int i = 0; i < n; ++i) { sym_assert_eq(r(i), s(i), "the residual is evaluated at the stage"); }
   auto &J = dynamic_cast<DenseMatrix &>(op.GetGradient(k));
   sym_assert(sp.wrt == "dxdt", "the Jacobian is with respect to the slope");
   for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { sym_assert_eq(J(i, j), sp.djac(v, i, j), "the Jacobian is evaluated at the stage"); } }
   sym_reach("done");
}
// ------------------------------------------------------------ FirstOrderODE
struct Slopes : public mfem::Solver
{
   int n;
   mutable int calls = 0;
   mutable bool empty = true, warm = false;
   mutable Vector k[8], guess[8];
   Slopes(int n_) : mfem::Solver(n_), n(n_) { }
   void SetOperator(const mfem::Operator &) override { }
   void Mult(const Vector &b, Vector &y) const override
   {
      empty = empty && b.Size() == 0;
      warm = iterative_mode;
      guess[calls] = y;
      k[calls].SetSize(n);
      y.SetSize(n);
      for (int i = 0; i < n; ++i) { k[calls](i) = R("k", 8 * calls + i); y(i) = k[calls](i); }
      ++calls;
   }
};
extern "C" void h_ode()
{
   static const char *names[] = {"RK1", "RK4", "MIDPOINT", "RRK", "RRKMIDPOINT", "RRK6", "PTC", "steady", "Euler", ""};
   const int n = 2, kind = sym_choice("kind", 0, 0, 9);
   miso::MISOResidual res(Spatial(n, 1.0));
   Spatial &sp = miso::getConcrete<Spatial>(res);
   Slopes solver(n);
   solver.iterative_mode = true;
   nlohmann::json o;
   o["type"] = names[kind];
   if (kind == 9) { o["type"] = "RK4"; o["ode-solver"] = "RK4"; }
   std::unique_ptr<miso::FirstOrderODE> ode;
   bool refused = false;
   try { ode = std::make_unique<miso::FirstOrderODE>(res, o, solver); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused == (kind >= 8), "exactly the unknown time-marching methods are refused");
   if (!ode) { sym_reach("refused"); return; }
   auto *s = ode->ode_solver_.get();
   bool is[7] = {dynamic_cast<mfem::ForwardEulerSolver *>(s) != nullptr, dynamic_cast<mfem::RK4Solver *>(s) != nullptr, dynamic_cast<mfem::ImplicitMidpointSolver *>(s) != nullptr,
                 dynamic_cast<miso::RRKImplicitMidpointSolver *>(s) != nullptr, dynamic_cast<miso::RRK6Solver *>(s) != nullptr, dynamic_cast<miso::PseudoTransientSolver *>(s) != nullptr,
                 dynamic_cast<miso::SteadyODESolver *>(s) != nullptr};
   static const int want[8] = {0, 1, 2, 3, 3, 4, 5, 6};
   for (int i = 0; i < 7; ++i) { sym_assert(is[i] == (i == want[kind]), "the method is the one named"); }
   sym_assert(solver.iterative_mode == (kind == 7), "only the steady method starts from the slope given");
   // slopes, implicit and explicit
   Vector u = vec("u", n), du = vec("g", n), u0(u), g0(du);
   const double t = R("t", 0), dt = R("dt", 0, 0.01, 2.0);
   ode->SetTime(t);
   const bool expl = sym_choice("explicit", 0, 0, 1);
   if (expl) { ode->Mult(u, du); }
   else { ode->ImplicitSolve(dt, u, du); }
   sym_assert(solver.calls == 1 && solver.empty, "one solve of the homogeneous equation");
   sym_assert(sp.time == t, "the time reaches the residual");
   sym_assert_eq(sp.dt, expl ? 0.0 : dt, "the step reaches the residual");
   for (int i = 0; i < n; ++i)
   {
      sym_assert(sp.at(i) == u0(i) && u(i) == u0(i), "the state reaches the residual");
      sym_assert(du(i) == solver.k[0](i), "the slope is the solution");
      sym_assert(solver.guess[0](i) == g0(i), "the solver sees the slope given");
   }
   // entropy, its change and the supply rate
   sp.ent = R("ent", 0);
   sp.dent = R("ent", 1);
   sp.sup = R("ent", 2);
   sym_assert(ode->Entropy(u) == sp.ent, "entropy");
   for (int i = 0; i < n; ++i) { sym_assert(sp.es(i) == u0(i), "entropy of the state"); }
   const int which = sym_choice("which", 0, 0, 1);
   const double v = which ? ode->SupplyRate(dt, u, du) : ode->EntropyChange(dt, u, du);
   sym_assert(v == (which ? sp.sup : sp.dent), "entropy change and supply rate");
   sym_assert(sp.et == t && sp.edt == dt, "entropy change at the time and step");
   for (int i = 0; i < n; ++i) { sym_assert(sp.es(i) == u0(i) && sp.ed(i) == du(i), "entropy change of the state and slope"); }
   sym_reach("done");
}
// ------------------------------------------------------------------ steps
static const int MAXC = 24;
struct Flow : public miso::EntropyConstrainedOperator
{
   int n;
   mutable int calls = 0, ents = 0, chgs = 0;
   mutable Vector x[MAXC], k[MAXC], g[MAXC];
   mutable double tm[MAXC], dts[MAXC];
   Vector ex[MAXC], cx[MAXC], ck[MAXC];
   double ev[MAXC], cv[MAXC], cdt[MAXC];
   Flow(int n_) : EntropyConstrainedOperator(n_, 0.0), n(n_) { }
   void slope(double d, const Vector &u, Vector &s) const
   {
      x[calls] = u;
      g[calls] = s;
      tm[calls] = GetTime();
      dts[calls] = d;
      k[calls].SetSize(n);
      s.SetSize(n);
      for (int i = 0; i < n; ++i) { k[calls](i) = R("k", 8 * calls + i, i ? -2.0 : 0.25, 2.0); s(i) = k[calls](i); }
      ++calls;
   }
   void Mult(const Vector &u, Vector &s) const override { slope(0.0, u, s); }
   void ImplicitSolve(double d, const Vector &u, Vector &s) override { slope(d, u, s); }
   double Entropy(const Vector &u) override
   {
      // only searches with one interpolation
      sym_assume(ents < 4);
      ex[ents] = u;
      ev[ents] = R("entropy", ents, -8.0, 8.0);
      return ev[ents++];
   }
   double EntropyChange(double d, const Vector &u, const Vector &s) override
   {
      cx[chgs] = u;
      ck[chgs] = s;
      cdt[chgs] = d;
      cv[chgs] = R("change", chgs, -4.0, 4.0);
      return cv[chgs++];
   }
};
extern "C" void h_step_steady()
{
   const int n = 2;
   Flow f(n);
   miso::SteadyODESolver s;
   s.Init(f);
   Vector x = vec("x", n), x0(x);
   double t = R("t", 0), t0 = t, dt = R("dt", 0, 0.01, 2.0), d0 = dt;
   s.Step(x, t, dt);
   sym_assert(f.calls == 1, "one implicit solve");
   sym_assert_eq(f.tm[0], t0 + d0, "the solve is at the new time");
   sym_assert(f.dts[0] == d0, "the solve is with the whole step");
   for (int i = 0; i < n; ++i)
   {
      sym_assert(f.x[0](i) == x0(i) && f.g[0](i) == x0(i), "the solve starts from the state");
      sym_assert(x(i) == f.k[0](i), "the solution replaces the state");
   }
   sym_assert_eq(t, t0 + d0, "time after the step");
   sym_reach("done");
}
extern "C" void h_step_ptc()
{
   const int n = 2;
   Flow f(n);
   miso::PseudoTransientSolver s;
   s.Init(f);
   Vector x = vec("x", n), x0(x);
   double t = R("t", 0), t0 = t, dt = R("dt", 0, 0.01, 2.0), d0 = dt;
   s.Step(x, t, dt);
   sym_assert(f.calls == 1, "one implicit solve");
   sym_assert_eq(f.tm[0], t0 + d0, "the solve is at the new time");
   sym_assert(f.dts[0] == d0, "the solve is with the whole step");
   for (int i = 0; i < n; ++i)
   {
      sym_assert(f.x[0](i) == x0(i), "the solve starts from the state");
      sym_assert_eq(x(i), x0(i) + d0 * f.k[0](i), "implicit Euler step");
   }
   sym_assert_eq(t, t0 + d0, "time after the step");
   sym_reach("done");
}
// the entropy after the step, at the relaxation parameter found
static void relaxed_end(Flow &f, const Vector &x0, const Vector &x, double t0, double t, double dt, double delta, const Vector &dir)
{
   // at the parameter returned the entropy was evaluated last, or at one of the two starts
   const int q = f.ents - 1;
   const double gam = (t - t0) / dt;
   for (int i = 0; i < f.n; ++i)
   {
      sym_assert(f.ex[0](i) == x0(i), "the old entropy is that of the state");
      sym_assert_eq(x(i), x0(i) + gam * dir(i), "time and state are relaxed alike");
      if (q >= 2)
      {
         const double g1 = (f.ex[q](0) - x0(0)) / dir(0);
         sym_assert_eq(f.ex[q](i), x0(i) + g1 * dir(i), "the entropy is evaluated along the step");
      }
   }
   // the point returned has been evaluated, and its entropy changes as asked
   int at = -1;
   for (int j = q; j > 0 && at < 0; --j) { if (f.ex[j](0) == x(0)) { at = j; } }
   sym_assert(at > 0, "the entropy was evaluated at the new state");
   if (at <= 0) { return; }
   const double r = f.ev[at] - f.ev[0] + gam * dt * delta;
   // unless the last change of the parameter was too small to go on
   for (int j = 1; j < at; ++j)
   {
      const double step = (f.ex[j](0) - x0(0)) / dir(0) - gam;
      if (step <= 1.0001e-12 && step >= -1.0001e-12) { sym_reach("stalled"); return; }
   }
   sym_assert(r <= 1.0001e-12 && r >= -1.0001e-12, "the entropy changes as it was asked to");
   sym_reach(at == 3 ? "interpolated" : "start");
}
extern "C" void h_step_rrk_midpoint()
{
   const int n = 2;
   Flow f(n);
   miso::RRKImplicitMidpointSolver s(nullptr);
   s.Init(f);
   Vector x = vec("x", n), x0(x);
   double t = R("t", 0), t0 = t, dt = R("dt", 0, 0.25, 2.0), d0 = dt;
   bool gave_up = false;
   try { s.Step(x, t, dt); }
   catch (const miso::MISOException &) { gave_up = true; }
   sym_assert(f.calls == 1 && f.chgs == 1, "one implicit solve and one entropy change");
   sym_assert_eq(f.tm[0], t0 + 0.5 * d0, "the stage is at the midpoint in time");
   sym_assert_eq(f.dts[0], 0.5 * d0, "the stage is with half the step");
   sym_assert_eq(f.cdt[0], 0.5 * d0, "the entropy change is with half the step");
   Vector dir(n);
   for (int i = 0; i < n; ++i)
   {
      dir(i) = d0 * f.k[0](i);
      sym_assert(f.x[0](i) == x0(i), "the stage starts from the state");
      sym_assert_eq(f.cx[0](i), x0(i) + 0.5 * d0 * f.k[0](i), "the entropy change is at the midpoint");
      sym_assert(f.ck[0](i) == f.k[0](i), "the entropy change is along the slope");
      if (f.ents > 2) { sym_assert_eq(f.ex[1](i), x0(i) + 0.99 * dir(i), "the search starts near one"); sym_assert_eq(f.ex[2](i), x0(i) + 1.01 * dir(i), "the search starts near one"); }
   }
   if (gave_up)
   {
      for (int i = 0; i < n; ++i) { sym_assert(x(i) == x0(i), "without a parameter the state stays"); }
      return;
   }
   relaxed_end(f, x0, x, t0, t, d0, f.cv[0], dir);
}
// any explicit tableau of S stages
static void explicit_rrk(int S)
{
   const int n = 1;
   Flow f(n);
   double a[6], b[4], c[4];
   for (int i = 0; i < S * (S - 1) / 2; ++i) { a[i] = R("a", i, 0.0, 2.0); }
   for (int i = 0; i < S; ++i) { b[i] = R("b", i, 0.125, 1.0); }
   for (int i = 0; i < S - 1; ++i) { c[i] = R("c", i, 0.0, 1.0); }
   miso::ExplicitRRKSolver s(S, a, b, c, nullptr);
   s.Init(f);
   Vector x = vec("x", n), x0(x);
   double t = R("t", 0), t0 = t, dt = R("dt", 0, 0.25, 2.0), d0 = dt;
   bool gave_up = false;
   try { s.Step(x, t, dt); }
   catch (const miso::MISOException &) { gave_up = true; }
   sym_assert(f.calls == S && f.chgs == S, "one slope and one entropy change for each stage");
   Vector dir(n);
   dir = 0.0;
   double delta = 0.0;
   for (int i = 0, l = 0; i < S; ++i)
   {
      Vector y(x0);
      for (int j = 0; j < i; ++j) { y.Add(a[l++] * d0, f.k[j]); }
      sym_assert_eq(f.tm[i], t0 + (i ? c[i - 1] * d0 : 0.0), "time of a stage");
      sym_assert_eq(f.cdt[i], i ? c[i - 1] * d0 : 0.0, "step of a stage");
      for (int j = 0; j < n; ++j)
      {
         sym_assert_eq(f.x[i](j), y(j), "state of a stage");
         sym_assert_eq(f.cx[i](j), y(j), "the entropy change is at the stage");
         sym_assert(f.ck[i](j) == f.k[i](j), "the entropy change is along the slope");
      }
      dir.Add(b[i] * d0, f.k[i]);
      delta += b[i] * f.cv[i];
   }
   if (gave_up)
   {
      for (int i = 0; i < n; ++i) { sym_assert(x(i) == x0(i), "without a parameter the state stays"); }
      return;
   }
   relaxed_end(f, x0, x, t0, t, d0, delta, dir);
}
extern "C" void h_step_rrk_1() { explicit_rrk(1); }
extern "C" void h_step_rrk_2() { explicit_rrk(2); }
extern "C" void h_step_rrk_3() { explicit_rrk(3); }
// ------------------------------------------- coefficients of the RRK6 method
// Every order condition up to order six, by rooted trees, and the stage sums.
struct Tree { int kids[6]; int nk, size; double gamma; };
extern "C" void h_rrk6()
{
   miso::RRK6Solver s(nullptr);
   const int S = s.s;
   sym_assert(S == 8, "number of stages");
   double A[8][8] = {};
   for (int i = 1, l = 0; i < 8; ++i) { for (int j = 0; j < i; ++j) { A[i][j] = s.a[l++]; } }
   for (int i = 1; i < 8; ++i)
   {
      double r = 0.0;
      for (int j = 0; j < i; ++j) { r += A[i][j]; }
      sym_assert_near(r, s.c[i - 1], 1e-12, "stage times are the row sums");
   }
   // trees as sorted lists of children; phi[t][i] the stage weight of tree t
   static Tree T[64];
   static double phi[64][8], ones[64][8];
   int nt = 1;
   T[0].nk = 0;
   T[0].size = 1;
   T[0].gamma = 1.0;
   for (int i = 0; i < 8; ++i) { ones[0][i] = 1.0; }
   int per[8] = {};
   per[1] = 1;
   for (int size = 2; size <= 6; ++size)
   {
      const int avail = nt;
      // children in non-increasing index, sizes summing to size - 1
      int st[6], top = 0, left = size - 1;
      st[0] = avail;
      // iterate over all multisets
      int pick[6], np = 0;
      struct Rec
      {
         static void go(int left, int maxi, int *pick, int np, int size, int &nt, int *per)
         {
            if (left == 0)
            {
               Tree &t = T[nt];
               t.nk = np;
               t.size = size;
               t.gamma = size;
               for (int k = 0; k < np; ++k) { t.kids[k] = pick[k]; t.gamma *= T[pick[k]].gamma; }
               ++nt;
               ++per[size];
               return;
            }
            for (int i = maxi; i >= 0; --i)
            {
               if (T[i].size > left) { continue; }
               pick[np] = i;
               go(left - T[i].size, i, pick, np + 1, size, nt, per);
            }
         }
      };
      (void)st;
      (void)top;
      Rec::go(left, avail - 1, pick, np, size, nt, per);
   }
   sym_assert(per[1] == 1 && per[2] == 1 && per[3] == 2 && per[4] == 4 && per[5] == 9 && per[6] == 20, "rooted trees up to six nodes");
   for (int t = 0; t < nt; ++t)
   {
      double sum = 0.0;
      for (int i = 0; i < 8; ++i)
      {
         double p = 1.0;
         for (int k = 0; k < T[t].nk; ++k)
         {
            double q = 0.0;
            for (int j = 0; j < i; ++j) { q += A[i][j] * phi[T[t].kids[k]][j]; }
            p *= q;
         }
         phi[t][i] = p;
         sum += s.b[i] * p;
      }
      sym_assert_near(sum, 1.0 / T[t].gamma, 1e-10, "order condition");
   }
   sym_reach("done");
}
// -------------------------------------------------------- block smoother
struct Scale : public mfem::Solver
{
   int n;
   double c, ct;
   mutable int sets = 0;
   const mfem::Operator *got = nullptr;
   Scale(int n_, double c_, double ct_) : mfem::Solver(n_), n(n_), c(c_), ct(ct_) { }
   void SetOperator(const mfem::Operator &o) override { got = &o; ++sets; }
   void Mult(const Vector &x, Vector &y) const override { for (int i = 0; i < n; ++i) { y(i) = c * x(n - 1 - i) + y(i); } }
   void MultTranspose(const Vector &x, Vector &y) const override { for (int i = 0; i < n; ++i) { y(i) = ct * x(n - 1 - i) + y(i); } }
};
extern "C" void h_block_jacobi()
{
   mfem::Array<int> off(4);
   off[0] = 0;
   off[1] = 2;
   off[2] = 3;
   off[3] = 5;
   miso::BlockJacobiPreconditioner p(off);
   Scale s0(2, R("c", 0), R("d", 0)), s1(1, R("c", 1), R("d", 1)), s2(2, R("c", 2), R("d", 2));
   Scale *s[3] = {&s0, &s1, &s2};
   const int mask = sym_choice("blocks", 0, 0, 7);
   for (int i = 0; i < 3; ++i) { if (mask >> i & 1) { p.SetDiagonalBlock(i, s[i]); } }
   mfem::BlockOperator op(off);
   DenseMatrix D0(2), D1(1), D2(2);
   op.SetBlock(0, 0, &D0);
   op.SetBlock(1, 1, &D1);
   op.SetBlock(2, 2, &D2);
   p.SetOperator(op);
   const mfem::Operator *d[3] = {&D0, &D1, &D2};
   for (int i = 0; i < 3; ++i) { sym_assert(s[i]->got == (mask >> i & 1 ? d[i] : nullptr), "each block solver gets its diagonal block"); }
   Vector x = vec("x", 5), x0(x), y(5);
   const bool tr = sym_choice("transpose", 0, 0, 1);
   for (int pass = 0; pass < 2; ++pass)
   {
      for (int i = 0; i < 5; ++i) { y(i) = 7.0; }
      if (tr) { p.MultTranspose(x, y); }
      else { p.Mult(x, y); }
      for (int b = 0; b < 3; ++b)
      {
         const int n = off[b + 1] - off[b];
         for (int i = 0; i < n; ++i)
         {
            const double e = mask >> b & 1 ? (tr ? s[b]->ct : s[b]->c) * x0(off[b] + n - 1 - i) : x0(off[b] + i);
            sym_assert_eq(y(off[b] + i), e, "each block is solved by its solver, or passed on");
         }
      }
      for (int i = 0; i < 5; ++i) { sym_assert(x(i) == x0(i), "the argument is left alone"); }
   }
   sym_reach("done");
}
extern "C" void h_block_jacobi_free()
{
   mfem::Array<int> off(3);
   off[0] = 0;
   off[1] = 1;
   off[2] = 2;
   miso::MISOResidual res(Spatial(2, 1.0));
   const Spatial &sp = miso::getConcrete<Spatial>(res);
   miso::JacobianFree jf(res);
   Vector u = vec("u", 2);
   const double s = R("s", 0, -3.0, 3.0);
   jf.setScaling(s);
   jf.setState(u);
   miso::BlockJacobiPreconditioner p(off);
   Scale s0(1, 1.0, 1.0), s1(1, 1.0, 1.0);
   const int mask = sym_choice("blocks", 0, 0, 3);
   if (mask & 1) { p.SetDiagonalBlock(0, &s0); }
   if (mask & 2) { p.SetDiagonalBlock(1, &s1); }
   p.SetOperator(jf);
   for (int b = 0; b < 2; ++b)
   {
      const Scale &q = b ? s1 : s0;
      auto *d = dynamic_cast<const DenseMatrix *>(q.got);
      sym_assert((d != nullptr) == bool(mask >> b & 1), "each block solver gets its diagonal block");
      if (d) { sym_assert_eq((*d)(0, 0), s * sp.djac(u, b, b), "the block is that of the matrix-free operator"); }
   }
   DenseMatrix D(2);
   bool refused = false;
   try { p.SetOperator(D); }
   catch (const miso::MISOException &) { refused = true; }
   sym_assert(refused, "operators without blocks are refused");
   sym_reach("done");
}
