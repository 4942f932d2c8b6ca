#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <variant>
#include <vector>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#include "adept.h"
#define private public
#define protected public
#include "miso_input.hpp"
#include "miso_integrator.hpp"
#include "miso_load.hpp"
#include "euler_integ.hpp"
#include "navier_stokes_integ.hpp"
#include "flow_control_residual.hpp"
#undef private
#undef protected
#include "miso_input.cpp"
#include "miso_integrator.cpp"
#ifdef CONTROL
#include "flow_control_residual.cpp"
#endif
#include "sym.h"
#ifndef VERIF_SYMBOLIC
static const bool mpi_up = []() { MPI_Init(nullptr, nullptr); atexit([]() { MPI_Finalize(); }); return true; }();
#endif
using mfem::DenseMatrix;
using mfem::Vector;
using miso::InputVector;
using miso::MISOInput;
using miso::MISOInputs;
static double R(const char *n, int i, double lo = -4.0, double hi = 4.0) { return sym_real_in(n, i, lo, hi); }
static const char *NAMES[4] = {"a", "b", "ab", ""};
// a name is absent, a scalar, or a field
struct In
{
   int kind[4];
   double val[4], data[4][3];
   int size[4];
   MISOInputs map;
   In(int n, int maxsize)
   {
      for (int i = 0; i < n; ++i)
      {
         kind[i] = sym_choice("kind", i, 0, 2);
         val[i] = R("val", i);
         size[i] = 0;
         if (kind[i] == 1) { map.emplace(NAMES[i], val[i]); }
         if (kind[i] == 2)
         {
            size[i] = 1 + i % maxsize;
            for (int j = 0; j < size[i]; ++j) { data[i][j] = R("data", 4 * i + j); }
            map.emplace(NAMES[i], InputVector(data[i], size[i]));
         }
      }
   }
};
extern "C" void h_scalar()
{
   In in(3, 2);
   const int ask = sym_choice("ask", 0, 0, 3);
   const bool err = sym_choice("error", 0, 0, 1) != 0;
   const int kind = ask < 3 ? in.kind[ask] : 0;
   double v = R("old", 0);
   const double old = v;
   int got = 0;   // 1 wrong kind, 2 not found
   try { miso::setValueFromInputs(in.map, NAMES[ask], v, err); }
   catch (const std::bad_variant_access &) { got = 1; }
   catch (const miso::MISOException &) { got = 2; }
   sym_assert(got == (kind == 2 ? 1 : kind == 0 && err ? 2 : 0), "a field is refused as a scalar, and an absent name when it is required");
   sym_assert_eq(v, kind == 1 ? in.val[ask] : old, "the value is that of the name, or unchanged");
   sym_assert(in.map.size() == (size_t)((in.kind[0] > 0) + (in.kind[1] > 0) + (in.kind[2] > 0)), "reading does not change the inputs");
   sym_reach("done");
}
extern "C" void h_vector()
{
   In in(3, 2);
   const int ask = sym_choice("ask", 0, 0, 3), n0 = sym_choice("size", 0, 0, 2);
   const bool err = sym_choice("error", 0, 0, 1) != 0, deep = sym_choice("deep", 0, 0, 1) != 0;
   const int kind = ask < 3 ? in.kind[ask] : 0;
   Vector v(n0);
   double old[2];
   for (int i = 0; i < n0; ++i) { old[i] = v(i) = R("old", i); }
   int got = 0;
   try { miso::setVectorFromInputs(in.map, NAMES[ask], v, deep, err); }
   catch (const std::bad_variant_access &) { got = 1; }
   catch (const miso::MISOException &) { got = 2; }
   sym_assert(got == (kind == 1 ? 1 : kind == 0 && err ? 2 : 0), "a scalar is refused as a field, and an absent name when it is required");
   if (kind == 2)
   {
      sym_assert(v.Size() == in.size[ask], "the vector has the size of the field");
      for (int i = 0; i < v.Size(); ++i) { sym_assert_eq(v(i), in.data[ask][i], "the vector is the field of the name"); }
      sym_assert(deep != (v.GetData() == in.data[ask]), "a deep copy is a copy, and otherwise the field itself is used");
      // writing to a deep copy does not reach the field; a shared one does
      const double first = in.data[ask][0];
      v(0) = first + 1.0;
      sym_assert_eq(in.data[ask][0], deep ? first : first + 1.0, "only a shared field is written through");
   }
   else
   {
      sym_assert(v.Size() == n0, "the vector keeps its size");
      for (int i = 0; i < n0; ++i) { sym_assert_eq(v(i), old[i], "the vector is unchanged"); }
   }
   sym_reach("done");
}
// the conversions keep the reference
extern "C" void h_conversion()
{
   const int n = sym_choice("n", 0, 0, 3);
   Vector v(n);
   for (int i = 0; i < n; ++i) { v(i) = R("v", i); }
   MISOInputs a({{"v", v}}), b(a);
   Vector w = std::get<InputVector>(b.at("v"));
   sym_assert(w.Size() == n && w.GetData() == v.GetData(), "a field input refers to the vector given");
   // the last value given to a name is the one read
   b["v"] = 2.5;
   b["w"] = v;
   double x = 0.0;
   miso::setValueFromInputs(b, "v", x);
   sym_assert(x == 2.5, "a name can be given another kind");
   Vector y;
   miso::setVectorFromInputs(a, "v", y);
   sym_assert(y.Size() == n && y.GetData() == v.GetData(), "a copy of the inputs is independent");
   sym_reach("done");
}
// -------------------------------------------------------------- integrators
struct Plain : public mfem::NonlinearFormIntegrator { };
struct Named : public mfem::NonlinearFormIntegrator
{
   double a = 0.0, b = 0.0;
   int opts = 0;
};
void setInputs(Named &i, const MISOInputs &in) { miso::setValueFromInputs(in, "a", i.a); miso::setValueFromInputs(in, "b", i.b); }
void setOptions(Named &i, const nlohmann::json &o) { i.opts = o.value("x", i.opts); }
struct Linear : public mfem::LinearFormIntegrator
{
   double a = 0.0;
   int opts = 0;
   void AssembleRHSElementVect(const mfem::FiniteElement &, mfem::ElementTransformation &, Vector &) override { }
};
void setInputs(Linear &i, const MISOInputs &in) { miso::setValueFromInputs(in, "a", i.a); }
void setOptions(Linear &i, const nlohmann::json &o) { i.opts = o.value("x", i.opts); }
extern "C" void h_integrators()
{
   In in(2, 1);
   Plain p;
   Named n1, n2;
   Linear l;
   const double old[4] = {R("old", 0), R("old", 1), R("old", 2), R("old", 3)};
   n1.a = old[0];
   n1.b = old[1];
   n2.a = n2.b = old[2];
   l.a = old[3];
   std::vector<miso::MISOIntegrator> v;
   v.emplace_back(p);
   v.emplace_back(n1);
   v.emplace_back(l);
   // copies and assignments refer to the same integrator
   miso::MISOIntegrator other(n2);
   const int how = sym_choice("how", 0, 0, 3);
   miso::MISOIntegrator copy(v[1]);
   if (how == 1) { v[1] = copy; }
   if (how == 2) { v[1] = std::move(copy); }
   if (how == 3) { v[1] = other; }
   Named &t = how == 3 ? n2 : n1, &u = how == 3 ? n1 : n2;
   const double ta = t.a, tb = t.b, ua = u.a, ub = u.b;
   bool bad = false;
   try { setInputs(v, in.map); }
   catch (const std::bad_variant_access &) { bad = true; }
   sym_assert(bad == (in.kind[0] == 2 || in.kind[1] == 2), "a field where a scalar is expected is refused");
   sym_assert_eq(u.a, ua, "no other integrator is set");
   sym_assert_eq(u.b, ub, "no other integrator is set");
   if (!bad)
   {
      sym_assert_eq(t.a, in.kind[0] ? in.val[0] : ta, "an integrator is given the input it names");
      sym_assert_eq(t.b, in.kind[1] ? in.val[1] : tb, "an integrator is given the input it names");
      sym_assert_eq(l.a, in.kind[0] ? in.val[0] : old[3], "an integrator is given the input it names");
   }
   nlohmann::json o;
   o["x"] = 3;
   setOptions(v, o);
   sym_assert(t.opts == 3 && l.opts == 3 && u.opts == 0, "the options reach each integrator");
   sym_reach(bad ? "refused" : "done");
}
// -------------------------------------------------------------------- loads
// a load that is k times a stored vector, and depends on the scalar "a" and the field "b"
struct Scaled
{
   double k = 1.0, a = 0.0, m[2][2];
   Vector b;
   Scaled(double k_, const Vector &b_) : k(k_), b(b_) { for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { m[i][j] = R(k_ == 1.0 ? "m" : "w", 2 * i + j); } } }
};
static void setInputs(Scaled &l, const MISOInputs &in) { miso::setValueFromInputs(in, "a", l.a); miso::setVectorFromInputs(in, "b", l.b, true); }
static void setOptions(Scaled &l, const nlohmann::json &o) { l.k = o.value("k", l.k); }
static void addLoad(Scaled &l, Vector &tv) { tv.Add(l.k * l.a, l.b); }
static double jacobianVectorProduct(Scaled &l, const Vector &d, const std::string &wrt) { return wrt == "a" ? l.m[0][0] * d(0) : 0.0; }
static void jacobianVectorProduct(Scaled &l, const Vector &d, const std::string &wrt, Vector &r)
{
   if (wrt == "b") { for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { r(i) += l.m[i][j] * d(j); } } }
}
static double vectorJacobianProduct(Scaled &l, const Vector &r, const std::string &wrt) { return wrt == "a" ? l.m[0][1] * r(0) + l.m[1][1] * r(1) : 0.0; }
static void vectorJacobianProduct(Scaled &l, const Vector &r, const std::string &wrt, Vector &d)
{
   if (wrt == "b") { for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { d(j) += l.m[i][j] * r(i); } } }
}
extern "C" void h_load()
{
   double b0[2] = {R("b0", 0), R("b0", 1)}, c0[2] = {R("c0", 0), R("c0", 1)};
   Scaled first(1.0, Vector(b0, 2)), second(2.0, Vector(c0, 2));
   const Scaled ref[2] = {first, second};
   first.b = ref[0].b;
   std::vector<miso::MISOLoad> v;
   v.emplace_back(first);
   v.emplace_back(second);
   const int which = sym_choice("which", 0, 0, 1), options = sym_choice("options", 0, 0, 1);
   const Scaled &t = ref[which];
   miso::MISOLoad &l = v[which];
   // the other load is given other inputs, before or after
   double oa = R("oa", 0), ob[2] = {R("ob", 0), R("ob", 1)}, na = R("na", 0), nb[2] = {R("nb", 0), R("nb", 1)};
   MISOInputs other({{"a", oa}, {"b", InputVector(ob, 2)}}), in;
   const int given = sym_choice("given", 0, 0, 3), order = sym_choice("order", 0, 0, 1);
   if (given & 1) { in.emplace("a", na); }
   if (given & 2) { in.emplace("b", InputVector(nb, 2)); }
   if (order) { setInputs(v[1 - which], other); }
   setInputs(l, in);
   if (!order) { setInputs(v[1 - which], other); }
   if (options)
   {
      nlohmann::json o;
      o["k"] = 3.0;
      setOptions(l, o);
   }
   Vector tv(2), d(2), r(2);
   double tv0[2], d0[2], r0[2];
   for (int i = 0; i < 2; ++i) { tv(i) = tv0[i] = R("tv", i); d(i) = d0[i] = R("d", i); r(i) = r0[i] = R("r", i); }
   for (int pass = 1; pass <= 2; ++pass)
   {
      addLoad(l, tv);
      for (int i = 0; i < 2; ++i)
      {
         const double f = (options ? 3.0 : t.k) * ((given & 1) ? na : 0.0) * ((given & 2) ? nb[i] : which ? c0[i] : b0[i]);
         sym_assert_near(tv(i), tv0[i] + pass * f, 1e-9, "the load with the inputs it was given is added");
      }
   }
   Vector one(1);
   one = d0[0];
   sym_assert_eq(jacobianVectorProduct(l, one, "a"), t.m[0][0] * d0[0], "the product with a scalar is that of the load");
   sym_assert_eq(vectorJacobianProduct(l, r, "a"), t.m[0][1] * r0[0] + t.m[1][1] * r0[1], "the reverse product with a scalar is that of the load");
   sym_assert(jacobianVectorProduct(l, one, "c") == 0.0 && vectorJacobianProduct(l, r, "c") == 0.0, "no other name is differentiated");
   jacobianVectorProduct(l, d, "b", r);
   for (int i = 0; i < 2; ++i) { sym_assert_near(r(i), r0[i] + t.m[i][0] * d0[0] + t.m[i][1] * d0[1], 1e-9, "the product with a field is accumulated"); r(i) = r0[i]; }
   vectorJacobianProduct(l, r, "b", d);
   for (int j = 0; j < 2; ++j) { sym_assert_near(d(j), d0[j] + t.m[0][j] * r0[0] + t.m[1][j] * r0[1], 1e-9, "the reverse product with a field is accumulated"); sym_assert(r(j) == r0[j], "the adjoint is left alone"); }
   sym_reach("done");
}
// ------------------------------------------------------- the flow integrators
static adept::Stack &stack()
{
   static adept::Stack s;
   return s;
}
template <int dim> static void flow()
{
   mfem::FiniteElementCollection *fec = nullptr;
   double xa[3], xn[3], keep[3];
   for (int i = 0; i < dim; ++i) { xa[i] = keep[i] = R("xa", i); xn[i] = R("xn", i); }
   Vector x0(xa, dim), x1(xn, dim);
   const int time = sym_choice("time", 0, 0, 1), control = sym_choice("control", 0, 0, 1), act = sym_choice("actuator", 0, 0, 1);
   const double t = R("t", 0), c = R("c", 0);
   MISOInputs in;
   if (time) { in.emplace("time", t); }
   if (control) { in.emplace("control", c); }
   if (act) { in.emplace("x-actuator", x1); }
   in.emplace("other", R("other", 0));
   auto scale = [](double, const Vector &, const Vector &) { return 1.0; };
   Vector qf(dim + 2);
   qf = 1.0;
   miso::EntropyConserveBC<dim, false> ec(stack(), fec, [](double, const Vector &, Vector &) { });
   miso::ControlBC<dim, false> cb(stack(), fec, scale, x0, 0.5);
   miso::BoundaryEntropy<dim, false> be(stack(), fec, scale, x0, 0.5);
   miso::ViscousControlBC<dim> vc(stack(), fec, 10.0, 0.7, qf, scale, x0, 0.5);
   ec.t = R("old", 0);
   cb.control = R("old", 1);
   vc.control = R("old", 2);
   std::vector<miso::MISOIntegrator> v;
   v.emplace_back(ec);
   v.emplace_back(cb);
   v.emplace_back(be);
   v.emplace_back(vc);
   setInputs(v, in);
   sym_assert_eq(ec.t, time ? t : R("old", 0), "the time reaches the boundary condition that depends on it");
   sym_assert_eq(cb.control, control ? c : R("old", 1), "the control reaches the inviscid boundary condition");
   sym_assert_eq(vc.control, control ? c : R("old", 2), "the control reaches the viscous boundary condition");
   sym_assert(cb.len_scale == 0.5 && be.len_scale == 0.5 && vc.len_scale == 0.5, "no input changes the length scale");
   for (int i = 0; i < dim; ++i)
   {
      sym_assert_eq(cb.x_actuator(i), act ? xn[i] : xa[i], "the actuator of the inviscid boundary condition");
      sym_assert_eq(be.x_actuator(i), act ? xn[i] : xa[i], "the actuator of the boundary entropy");
      sym_assert_eq(vc.x_actuator(i), act ? xn[i] : xa[i], "the actuator of the viscous boundary condition");
      sym_assert_eq(xa[i], keep[i], "the actuator given first is not written");
   }
   sym_reach("done");
}
extern "C" void h_flow_1() { flow<1>(); }
extern "C" void h_flow_2() { flow<2>(); }
extern "C" void h_flow_3() { flow<3>(); }
#ifdef CONTROL
// -------------------------------------------------------- the control system
static miso::ControlResidual *controller(bool test)
{
   nlohmann::json o;
   o["test-ode"] = test;
   return new miso::ControlResidual(MPI_COMM_SELF, o);
}
static const char *PAR[8] = {"time", "boundary-entropy", "Kp", "Td", "Ti", "eta", "beta", "target-entropy"};
static double par(const miso::ControlResidual &r, int i)
{
   const double p[8] = {r.time, r.boundary_entropy, r.Kp, r.Td, r.Ti, r.eta, r.beta, r.target_entropy};
   return p[i];
}
// two calls: what the second does not name stays as the first left it
extern "C" void h_control_inputs()
{
   auto *r = controller(sym_choice("test", 0, 0, 1) != 0);
   const int one = sym_choice("one", 0, 0, 8), closed = sym_choice("closed", 0, 0, 3), pm = sym_choice("P", 0, 0, 2), first = sym_choice("first", 0, 0, 1);
   MISOInputs a;
   double base[8], x0[2] = {R("x", 0), R("x", 1)}, p0[4] = {R("p", 0), R("p", 1), R("p", 1), R("p", 2)}, p1[4] = {R("q", 0), R("q", 1), R("q", 1), R("q", 2)};
   for (int i = 0; i < 8; ++i) { base[i] = R("base", i); a.emplace(PAR[i], base[i]); }
   a.emplace("state", InputVector(x0, 2));
   a.emplace("P-matrix", InputVector(p0, 4));
   a.emplace("closed-loop", (double)first);
   setInputs(*r, a);
   MISOInputs b;
   const double v = R("v", 0);
   if (one < 8) { b.emplace(PAR[one], v); }
   if (closed) { b.emplace("closed-loop", closed == 1 ? 0.0 : closed == 2 ? 1.0 : R("loop", 0, 0.5, 2.0)); }
   if (pm == 1) { b.emplace("P-matrix", InputVector(p1, 4)); }
   b.emplace("unrelated", 7.0);
   double x1[2] = {R("y", 0), R("y", 1)};
   if (pm == 2) { b.emplace("state", InputVector(x1, 2)); }
   setInputs(*r, b);
   for (int i = 0; i < 8; ++i) { sym_assert_eq(par(*r, i), i == one ? v : base[i], "a parameter has the value last given to its name"); }
   sym_assert(r->closed_loop == (closed ? closed >= 2 : first == 1), "the loop is as last said, and as before when not said");
   const double *p = pm == 1 ? p1 : p0, *x = pm == 2 ? x1 : x0;
   for (int i = 0; i < 2; ++i)
   {
      sym_assert_eq(r->x(i), x[i], "the state is the one last given");
      for (int j = 0; j < 2; ++j) { sym_assert_eq((*r->P)(i, j), p[2 * i + j], "the norm matrix is the one last given"); }
   }
   sym_reach("done");
}
// a norm matrix that is not symmetric is refused
extern "C" void h_control_norm()
{
   auto *r = controller(false);
   double p[4] = {R("p", 0), R("p", 1), R("p", 2), R("p", 3)};
   sym_assume(p[1] - p[2] > 1e-8 || p[2] - p[1] > 1e-8);
   bool bad = false;
   try { setInputs(*r, MISOInputs({{"P-matrix", InputVector(p, 4)}})); }
   catch (const miso::MISOException &) { bad = true; }
   sym_assert(bad, "a norm matrix that is not symmetric is refused");
   sym_reach("done");
}
// the residual, its outputs and its Jacobian (the parts a time step uses)
struct Control
{
   miso::ControlResidual *r;
   bool test, closed;
   double kp, td, ti, eta, beta, target, be, x[2], p[4];
   MISOInputs in;
   Control() : test(sym_choice("test", 0, 0, 1) != 0), closed(sym_choice("closed", 0, 0, 1) != 0)
   {
      r = controller(test);
      kp = R("kp", 0);
      td = R("td", 0, 0.125, 4.0);
      ti = R("ti", 0, 0.125, 4.0);
      eta = R("eta", 0, 0.125, 2.0);
      beta = R("beta", 0, 0.125, 2.0);
      target = R("target", 0);
      be = R("be", 0);
      x[0] = R("x", 0);
      x[1] = R("x", 1);
      p[0] = R("p", 0);
      p[1] = p[2] = R("p", 1);
      p[3] = R("p", 2);
      in = MISOInputs({{"Kp", kp}, {"Td", td}, {"Ti", ti}, {"eta", eta}, {"beta", beta}, {"target-entropy", target}, {"closed-loop", closed ? 1.0 : 0.0}, {"P-matrix", InputVector(p, 4)}, {"boundary-entropy", be}, {"state", InputVector(x, 2)}});
   }
};
// given all at once, or the parameters first and the state later as a flow-control residual does
extern "C" void h_control_residual()
{
   Control c;
   Vector res(2);
   const bool later = sym_choice("later", 0, 0, 1) != 0;
   if (later)
   {
      setInputs(*c.r, c.in);
      evaluate(*c.r, MISOInputs({{"state", InputVector(c.x, 2)}, {"boundary-entropy", c.be}}), res);
   }
   else { evaluate(*c.r, c.in, res); }
   sym_assert(res.Size() == 2, "one equation for each variable");
   const double err = c.target - c.be, sum = c.beta * c.ti + c.eta * c.td, den = c.beta * c.eta * c.ti * c.td;
   if (c.test)
   {
      sym_assert_near(res(0), -0.05 * c.x[1], 1e-12, "the test system");
      sym_assert_near(res(1), 0.05 * c.x[0] + c.be, 1e-12, "the test system");
   }
   else
   {
      // multiplied out
      double e0 = c.x[1] / den, e1 = -c.x[0] + sum / den * c.x[1];
      if (c.closed)
      {
         e0 += (1.0 - c.eta * c.beta) / (c.eta * c.beta) * err * c.kp / (c.eta * c.ti * c.td);
         e1 += (sum / (c.eta * c.beta) - c.ti - c.td) * err * c.kp / (c.eta * c.ti * c.td);
      }
      sym_assert_eq(res(0), e0, "the control equations");
      sym_assert_eq(res(1), e1, "the control equations");
   }
   const double vel = c.r->getControlVelocity(later ? MISOInputs({{"state", InputVector(c.x, 2)}, {"boundary-entropy", c.be}}) : c.in);
   sym_assert_eq(vel, c.x[1] + (!c.test && c.closed ? c.kp * err / c.eta : 0.0), "the control velocity");
   sym_reach("done");
}
#endif
