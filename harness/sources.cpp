// Current and magnetization sources: published directions and exact
// derivatives with respect to the position of the nodes (sym_diff).
#include <cmath>
#include <string>
#include <vector>
#include "adept.h"
#include "elem.hpp"
#include "nlohmann/json.hpp"
#include "coefficient.hpp"
#include "current_source_functions.hpp"
#include "magnetic_source_functions.hpp"
using namespace mfem;
using namespace miso;
using json = nlohmann::json;
static double R(const char *n, int i, double lo, double hi) { return sym_real_in(n, i, lo, hi); }
// a tetrahedron or quadrilateral with one node coordinate moved, shifted so that the point has the quadrant asked for
struct Place
{
   el::Element e;
   IntegrationPoint ip;
   double x[3] = {0, 0, 0};
   Place(int dim, double sx, double sy, double sz = 0.0) : e(dim, true)
   {
      DenseMatrix P(e.T.GetPointMat());
      const double s[3] = {sx, sy, sz};
      for (int i = 0; i < dim; ++i) { for (int j = 0; j < e.nn; ++j) { P(i, j) += s[i]; } }
      e.T.SetPointMat(P);
      e.T.Attribute = 2;
      ip.Set3(0.25, 0.25, dim == 3 ? 0.25 : 0.0);
      e.T.SetIntPoint(&ip);
      Vector v(x, dim);
      e.T.Transform(ip, v);
   }
};
static void direction(const std::string &s, const double *x, double *d)
{
   d[0] = d[1] = d[2] = 0.0;
   const double r = std::sqrt(x[0] * x[0] + x[1] * x[1]);
   if (s == "x") { d[0] = 1.0; }
   if (s == "y") { d[1] = 1.0; }
   if (s == "z") { d[2] = 1.0; }
   if (s == "-z") { d[2] = -1.0; }
   if (s == "ring" || s == "cw") { d[0] = -x[1] / r; d[1] = x[0] / r; }
   if (s == "ccw") { d[0] = x[1] / r; d[1] = -x[0] / r; }
   if (s == "north") { d[0] = x[0] / r; d[1] = x[1] / r; }
   if (s == "south") { d[0] = -x[0] / r; d[1] = -x[1] / r; }
   if (s == "box1") { d[2] = -6 * (x[1] - 0.5); }
   if (s == "box2") { d[2] = 6 * (x[1] - 0.5); }
   if (s == "team13")
   {
      // a coil around the axis: straight sides of half width 0.075, joined by
      // quarter circles around (+-0.075, +-0.075), run counter clockwise
      double c[2];
      for (int i = 0; i < 2; ++i) { c[i] = x[i] > 0.075 ? x[i] - 0.075 : x[i] < -0.075 ? x[i] + 0.075 : 0.0; }
      const double n = std::sqrt(c[0] * c[0] + c[1] * c[1]);
      d[0] = -c[1] / n;
      d[1] = c[0] / n;
   }
}
// the functional bar . V and its derivative with respect to the moved node coordinate
template <class F, class D> static void check(Place &p, int vdim, const double *want, double scale, F eval, D diff)
{
   Vector V(vdim), bar(vdim);
   eval(V);
   double J = 0.0;
   for (int i = 0; i < vdim; ++i)
   {
      bar(i) = R("bar", i, -2, 2);
      J += bar(i) * V(i);
      sym_observe("value", V(i));
      sym_assert_eq(V(i), scale * want[i], "value of the source");
   }
   DenseMatrix P(p.e.dim, p.e.nn);
   P = 0.0;
   diff(bar, P);
   sym_observe("derivative", P(p.e.d, p.e.node));
   sym_assert_eq(P(p.e.d, p.e.node), sym_diff(J, p.e.X), "derivative of the source with respect to the nodes");
}
static const double S[4][2] = {{1, 2}, {-3, 2}, {-3, -4}, {2, -3}};
// a group that is not asked for, and the group of this attribute
static json groups(const char *s) { json o; o["phase"][s] = json::array({1, 2}); o["other"]["z"] = json::array({5}); return o; }
extern "C" void h_src_current()
{
   static const char *N[] = {"x", "y", "z", "-z", "ring", "box1", "box2", "team13"};
   const std::string s = N[sym_choice("source", 0, 0, 7)];
   const int q = sym_choice("quadrant", 0, 0, 3);
   adept::Stack stack;
   CurrentDensityCoefficient c(stack, groups(s.c_str()));
   const double j = R("J", 0, -10, 10), k = R("K", 0, -10, 10);
   setInputs(c, {{"current_density:phase", j}, {"current_density:other", k}});
   Place p(3, S[q][0], S[q][1], 0.5);
   double d[3];
   direction(s, p.x, d);
   check(p, 3, d, j, [&](Vector &V) { c.Eval(V, p.e.T, p.ip); }, [&](const Vector &bar, DenseMatrix &P) { c.EvalRevDiff(bar, p.e.T, p.ip, P); });
   p.e.T.Attribute = 7;
   Vector V(3);
   V = 1.0;
   c.Eval(V, p.e.T, p.ip);
   sym_assert(V(0) == 0.0 && V(1) == 0.0 && V(2) == 0.0, "no current outside of the windings");
   sym_reach("done");
}
// the sides of the team 13 coil
extern "C" void h_src_team13()
{
   adept::Stack stack;
   CurrentDensityCoefficient c(stack, groups("team13"));
   setInputs(c, {{"current_density:phase", 1.0}});
   static const double M[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
   const int q = sym_choice("side", 0, 0, 3);
   // away from the axis along one direction, within the side along the other
   Place p(3, 0, 0, 0.5);
   DenseMatrix P(p.e.T.GetPointMat());
   const double t = R("t", 0, -0.0625, 0.0625), r = R("r", 0, 0.125, 1);
   const double w[3] = {M[q][0] ? M[q][0] * r : t, M[q][1] ? M[q][1] * r : t, 0.5};
   for (int i = 0; i < 3; ++i) { for (int k = 0; k < 4; ++k) { P(i, k) = w[i]; } }
   p.e.T.SetPointMat(P);
   p.e.T.SetIntPoint(&p.ip);
   Vector V(3);
   c.Eval(V, p.e.T, p.ip);
   for (int i = 0; i < 3; ++i) { sym_observe("value", V(i)); }
   sym_assert(V(0) == -M[q][1] && V(1) == M[q][0] && V(2) == 0.0, "the coil runs counter clockwise");
   sym_reach("done");
}
extern "C" void h_src_current2d()
{
   static const char *N[] = {"z", "-z", "box1", "box2"};
   const std::string s = N[sym_choice("source", 0, 0, 3)];
   adept::Stack stack;
   CurrentDensityCoefficient2D c(stack, groups(s.c_str()));
   const double j = R("J", 0, -10, 10), k = R("K", 0, -10, 10);
   setInputs(c, {{"current_density:phase", j}, {"current_density:other", k}});
   Place p(2, 1, 2);
   double d[3];
   direction(s, p.x, d);
   // the equation has the negative of the current
   check(p, 1, d + 2, -j, [&](Vector &V) { V(0) = c.Eval(p.e.T, p.ip); }, [&](const Vector &bar, DenseMatrix &P) { c.EvalRevDiff(bar(0), p.e.T, p.ip, P); });
   p.e.T.Attribute = 7;
   sym_assert(c.Eval(p.e.T, p.ip) == 0.0, "no current outside of the windings");
   sym_reach("done");
}
// caching, zeroing and restoring the currents
template <class C, class F> static void cache(C &c, F eval, double f)
{
   const double j = R("J", 0, 1, 10), j2 = R("J", 1, 11, 20);
   setInputs(c, {{"current_density:phase", j}});
   sym_assert_eq(eval(), f * j, "current as set");
   sym_assert(!setInputs(c, {{"current_density:phase", j}}), "setting the same value is no change");
   sym_assert(!setInputs(c, {{"current_density:else", j2}}), "setting another value is no change");
   c.cacheCurrentDensity();
   c.zeroCurrentDensity();
   sym_assert(eval() == 0.0, "current zeroed");
   c.resetCurrentDensityFromCache();
   sym_assert_eq(eval(), f * j, "current restored");
   sym_assert(setInputs(c, {{"current_density:phase", j2}}), "setting another value is a change");
   sym_assert_eq(eval(), f * j2, "current as set");
   c.resetCurrentDensityFromCache();
   sym_assert_eq(eval(), f * j, "current restored again");
   sym_reach("done");
}
extern "C" void h_src_cache()
{
   static const char *N[] = {"x", "y", "z", "ring", "cwStator", "ccwStator"};
   const int k = sym_choice("source", 0, 0, 5);
   adept::Stack stack;
   el::Element e(3, false);
   IntegrationPoint ip;
   ip.Set3(0.25, 0.25, 0.25);
   e.T.SetIntPoint(&ip);
   Vector V(3);
   if (sym_choice("dim", 0, 2, 3) == 2)
   {
      el::Element q(2, false);
      q.T.SetIntPoint(&ip);
      CurrentDensityCoefficient2D c(stack, groups(k % 2 ? "-z" : "z"));
      cache(c, [&]() { return c.Eval(q.T, ip); }, k % 2 ? 1.0 : -1.0);
      return;
   }
   CurrentDensityCoefficient c(stack, groups(N[k]));
   auto len = [&]() { c.Eval(V, e.T, ip); return std::sqrt(V * V); };
   cache(c, len, 1.0);
}
// windings of a stator: concrete angles, symbolic height
extern "C" void h_src_stator()
{
   static const double D[6][2] = {{2, 0.125}, {2, -0.125}, {-0.5, 2}, {-0.75, -2}, {0.5, -2}, {1.5, 1.25}};
   const int q = sym_choice("angle", 0, 0, 5), cw = sym_choice("cw", 0, 0, 1), n = 4 * sym_choice("slots", 0, 2, 9);
   adept::Stack stack;
   CurrentDensityCoefficient c(stack, groups(cw ? "cwStator" : "ccwStator"));
   const double L = R("stack_length", 0, 0.25, 2), j = R("J", 0, 0.5, 10), z = R("z", 0, -2, 2);
   const bool set = sym_choice("set", 0, 0, 1);
   if (set) { setInputs(c, {{"n_slots", (double)n}, {"stack_length", L}}); }
   setInputs(c, {{"current_density:phase", j}});
   const double zt = (set ? L : 0.345) / 2;
   sym_assume(z > zt + 0.0625 || z < -zt - 0.0625 || (z < zt && z > -zt));
   el::Element e(3, false);
   DenseMatrix P(3, 4);
   for (int k = 0; k < 4; ++k) { P(0, k) = D[q][0]; P(1, k) = D[q][1]; P(2, k) = z; }
   e.T.SetPointMat(P);
   IntegrationPoint ip;
   ip.Set3(0.25, 0.25, 0.25);
   e.T.SetIntPoint(&ip);
   Vector V(3);
   c.Eval(V, e.T, ip);
   for (int i = 0; i < 3; ++i) { sym_observe("value", V(i)); }
   // slot and position within it
   const double w = 2 * M_PI / (set ? n : 24), a = std::atan2(D[q][1], D[q][0]), s = std::round(a / w), th = a - s * w;
   const double sg = cw ? -1.0 : 1.0;
   if (z < zt && z > -zt)
   {
      sym_assert_eq(V(2), th > 0 ? -sg * j : sg * j, "current runs along the axis, opposite in the two halves of a slot");
      sym_assert(V(0) == 0.0 && V(1) == 0.0, "current runs along the axis");
      sym_reach("body");
   }
   else
   {
      const double ax[3] = {std::cos(s * w), std::sin(s * w), 0.0}, h = z > zt ? z - zt : z + zt, r[3] = {D[q][0], D[q][1], h};
      sym_assert_near(V(0) * ax[0] + V(1) * ax[1], 0.0, 1e-9, "end windings turn about the middle of the tooth");
      sym_assert_near(V(0) * r[0] + V(1) * r[1] + V(2) * h, 0.0, 1e-9, "end windings turn about the middle of the tooth");
      sym_assert_near(V(0) * V(0) + V(1) * V(1) + V(2) * V(2), j * j, 1e-9, "end windings carry the current");
      // the current that leaves the body arrives in the end winding
      sym_assert(V(2) * (th > 0 ? -sg : sg) > 0.0, "end windings continue the windings");
      sym_reach("end");
   }
}
extern "C" void h_src_magnet()
{
   static const char *N[] = {"north", "south", "cw", "ccw", "x", "y", "z"};
   const int dim = sym_choice("dim", 0, 2, 3);
   const int k = sym_choice("source", 0, 0, dim == 3 ? 6 : 5);
   const std::string s = N[k];
   const int q = sym_choice("quadrant", 0, 0, 3);
   json o, lib;
   o["magnet"][s] = json::array({1, 2});
   o["spare"]["x"] = json::array({4});
   const double a = R("alpha", 0, -1, 0), b = R("Br", 0, 0.5, 2), T = R("T", 0, 250, 500);
   lib["magnet"] = {{"alpha_B_r", a}, {"T_ref", 300.0}, {"B_r_T_ref", b}};
   lib["spare"] = {{"alpha_B_r", 0.0}, {"T_ref", 300.0}, {"B_r_T_ref", 5.0}};
   adept::Stack stack;
   MagnetizationCoefficient c(stack, o, lib, dim);
   Place p(dim, S[q][0], S[q][1], 0.5);
   double d[3];
   direction(s, p.x, d);
   const double B = b + b * a / 100 * (T - 300.0);
   check(p, dim, d, B, [&](Vector &V) { c.Eval(V, p.e.T, p.ip, T); }, [&](const Vector &bar, DenseMatrix &P) { c.EvalRevDiff(bar, p.e.T, p.ip, T, P); });
   Vector D(dim);
   c.EvalStateDeriv(D, p.e.T, p.ip, T);
   for (int i = 0; i < dim; ++i) { sym_observe("dT", D(i)); sym_assert_eq(D(i), d[i] * b * a / 100, "derivative of the magnetization with respect to temperature"); }
   sym_reach("done");
}
