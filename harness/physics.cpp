// Material and source models: published formulas and exact derivatives (sym_diff).
#include <cmath>
#include <string>
#include <vector>
#include "elem.hpp"
#include "nlohmann/json.hpp"
#include "coefficient.hpp"
#include "reluctivity_coefficient.hpp"
#include "conductivity_coefficient.hpp"
#include "remnant_flux_coefficient.hpp"
#include "demag_flux_coefficient.hpp"
#include "pm_demag_constraint_coeff.hpp"
#include "cal2_kh_coefficient.hpp"
#include "cal2_ke_coefficient.hpp"
#include "material_library.hpp"
using namespace mfem;
using namespace miso;
using json = nlohmann::json;
static double R(const char *n, int i, double lo, double hi) { return sym_real_in(n, i, lo, hi); }
// one component with the material given, named by attr or by attrs
static json component(const json &material)
{
   json c;
   c["material"] = material;
   if (sym_choice("attr", 0, 0, 1) == 0) { c["attr"] = 1; }
   else { c["attrs"] = json::array({3, 1}); }
   json o;
   o["components"]["part"] = c;
   return o;
}
struct At
{
   el::Element e;
   IntegrationPoint ip;
   At(int attr = 1) : e(2, false) { e.T.Attribute = attr; ip.Set3(0.25, 0.5, 0.0); e.T.SetIntPoint(&ip); }
   ElementTransformation &T() { return e.T; }
};
// value, first and second derivative of a model of one state
static void derivatives(StateCoefficient &c, double s, bool second)
{
   At at;
   const double v = c.Eval(at.T(), at.ip, s), d = c.EvalStateDeriv(at.T(), at.ip, s);
   sym_observe("value", v);
   sym_observe("derivative", d);
   sym_assert_eq(d, sym_diff(v, s), "derivative of the model with respect to the state");
   if (second)
   {
      const double d2 = c.EvalState2ndDeriv(at.T(), at.ip, s);
      sym_observe("second", d2);
      sym_assert_eq(d2, sym_diff(d, s), "second derivative of the model with respect to the state");
   }
}
static const double mu0 = 4e-7 * M_PI;
// ------------------------------------------------------------ reluctivity
extern "C" void h_ph_nu_linear()
{
   json m, lib;
   const double mu = R("mu_r", 0, 0.5, 10000), s = R("B", 0, 0, 5);
   lib["steel"]["mu_r"] = mu;
   const int form = sym_choice("form", 0, 0, 3);
   const int attr = sym_choice("where", 0, 1, 2);
   if (form == 0) { m = "steel"; }
   else { m["name"] = form == 3 ? "unknown" : "steel"; if (form == 2) { m["reluctivity"]["model"] = "linear"; } }
   if (form == 3) { lib["unknown"]["rho"] = 1.0; }
   ReluctivityCoefficient nu(component(m), lib);
   At at(attr);
   const double v = nu.Eval(at.T(), at.ip, s);
   sym_observe("value", v);
   if (attr == 2 || form == 3) { sym_assert_near(v * mu0, 1.0, 1e-12, "reluctivity of vacuum where nothing else is said"); }
   else { sym_assert_eq(v * mu0 * mu, 1.0, "reluctivity is the inverse of the permeability"); }
   sym_assert_eq(nu.EvalStateDeriv(at.T(), at.ip, s), 0.0, "a linear material does not depend on the state");
   sym_assert_eq(nu.EvalState2ndDeriv(at.T(), at.ip, s), 0.0, "a linear material does not depend on the state");
   sym_reach("done");
}
// B-spline given by the user: symbolic control points, knots 0..2
static json spline(const char *model, int p, double *c, int n, double lo, double hi, json &lib)
{
   json m;
   m["name"] = "steel";
   std::vector<double> cps, t;
   for (int i = 0; i < n; ++i) { c[i] = R("cp", i, lo, hi); cps.push_back(c[i]); }
   for (int i = 0; i <= p; ++i) { t.push_back(0.0); }
   for (int i = 1; i < n - p; ++i) { t.push_back(2.0 * i / (n - p)); }
   for (int i = 0; i <= p; ++i) { t.push_back(2.0); }
   m["reluctivity"]["model"] = model;
   json d;
   d["cps"] = cps;
   d["knots"] = t;
   d["degree"] = p;
   lib["steel"]["reluctivity"][model] = d;
   // what the user gives goes before the library
   if (sym_choice("given", 0, 0, 1) == 1)
   {
      m["reluctivity"].update(d);
      lib["steel"]["reluctivity"][model] = {{"cps", {1.0, 1.5}}, {"knots", {0.0, 0.0, 3.0, 3.0}}, {"degree", 1}};
   }
   return m;
}
extern "C" void h_ph_nu_log()
{
   double c[5];
   json lib;
   lib["steel"]["mu_r"] = 500.0;
   const int p = sym_choice("degree", 0, 2, 3);
   ReluctivityCoefficient nu(component(spline("lognu", p, c, p + 2, 0, 14, lib)), lib);
   const double s = R("B", 0, 0, 3);
   At at;
   derivatives(nu, s, true);
   const double v = nu.Eval(at.T(), at.ip, s);
   sym_assert(v > 0.0, "reluctivity is positive");
   if (s > 2.0) { sym_assert_near(v * mu0, 1.0, 1e-12, "beyond the data the material is saturated"); sym_reach("saturated"); }
   if (s == 0.0) { sym_assert_eq(v, std::exp(c[0]), "reluctivity at zero flux"); }
   sym_reach("done");
}
extern "C" void h_ph_nu_bh()
{
   double c[5];
   json lib;
   lib["steel"]["mu_r"] = 500.0;
   const int p = sym_choice("degree", 0, 2, 3), n = p + 2;
   ReluctivityCoefficient nu(component(spline("bh", p, c, n, 0, 4000, lib)), lib);
   const double s = R("B", 0, 0, 3);
   At at;
   const double v = nu.Eval(at.T(), at.ip, s);
   sym_observe("value", v);
   if (s > 1e-14) { derivatives(nu, s, false); }
   if (s > 2.0) { sym_assert_eq((v - 1.0 / mu0) * s, c[n - 1] - 2.0 / mu0, "beyond the data the field rises as in vacuum"); sym_reach("saturated"); }
   const double d = nu.EvalStateDeriv(at.T(), at.ip, s);
   sym_observe("slope", d);
   // the slope at zero flux is the limit of the slopes: half of the curvature of the curve
   if (s == 0.0) { sym_assert_eq(d, p == 2 ? 0.5 * (2 * c[0] - 3 * c[1] + c[2]) : 1.5 * (2 * c[0] - 3 * c[1] + c[2]), "slope at zero flux"); }
   if (s <= 1e-14) { sym_assert_near(v, p * c[1] - p * c[0], 1e-6, "reluctivity at zero flux is the slope of the curve"); sym_reach("zero"); }
   if (s == 2.0) { sym_assert_eq(v * s, c[n - 1], "the extrapolation joins the data"); }
   sym_reach("done");
}
// the library's steels
extern "C" void h_ph_nu_library()
{
   static const char *S[][2] = {{"hiperco50", "lognu"}, {"hiperco50", "bh"}, {"team13", "bh"}};
   const int k = sym_choice("spline", 0, 0, 2);
   json m;
   m["name"] = S[k][0];
   m["reluctivity"]["model"] = S[k][1];
   ReluctivityCoefficient nu(component(m), material_library);
   const auto &data = material_library[S[k][0]]["reluctivity"][S[k][1]];
   const double b = data["knots"].get<std::vector<double>>().back(), h = data["cps"].get<std::vector<double>>().back();
   const double s = R("B", 0, 2, 4);
   sym_assume(s > b);
   At at;
   const double v = nu.Eval(at.T(), at.ip, s);
   sym_observe("value", v);
   if (k == 0) { sym_assert_near(v * mu0, 1.0, 1e-9, "beyond the data the material is saturated"); }
   else { sym_assert_near((v - 1.0 / mu0) * s, h - b / mu0, 1e-3, "beyond the data the field rises as in vacuum"); }
   sym_reach("done");
}
// ----------------------------------------------------- conductivity, magnets
extern "C" void h_ph_sigma()
{
   json m, lib;
   const double a = R("alpha", 0, 0, 0.01), T0 = R("Tref", 0, 250, 350), s0 = R("sigma", 0, 1000, 100000), T = R("T", 0, 270, 500);
   const int form = sym_choice("form", 0, 0, 3);
   lib["wire"]["sigma"] = s0;
   lib["wire"]["conductivity"]["linear"] = {{"sigma_T_ref", s0}, {"T_ref", T0}, {"alpha_resistivity", a}};
   if (form == 0) { m = "wire"; }
   else { m["name"] = "wire"; }
   if (form == 1) { m["conductivity"]["model"] = "linear"; }
   if (form == 2) { m["conductivity"] = {{"model", "linear"}, {"sigma_T_ref", s0}, {"T_ref", T0}, {"alpha_resistivity", a}}; lib["wire"]["conductivity"]["linear"] = {{"sigma_T_ref", 1.0}, {"T_ref", 2.0}, {"alpha_resistivity", 3.0}}; }
   if (form == 3) { m["conductivity"]["model"] = "constant"; }
   ConductivityCoefficient c(component(m), lib);
   At at;
   const double v = c.Eval(at.T(), at.ip, T);
   if (form == 1 || form == 2)
   {
      sym_assume(1.0 + a * (T - T0) > 0.1);
      derivatives(c, T, true);
      sym_assert_eq(v * (1.0 + a * (T - T0)), s0, "resistivity is linear in temperature");
      sym_assert(v > 0.0, "conductivity is positive");
   }
   else { sym_assert_eq(v, s0, "constant conductivity"); sym_assert_eq(c.EvalStateDeriv(at.T(), at.ip, T), 0.0, "constant conductivity"); }
   sym_reach("done");
}
extern "C" void h_ph_remnant()
{
   json m;
   const double a = R("alpha", 0, -1, 0), T0 = R("Tref", 0, 250, 350), b = R("Br", 0, 0.1, 2), T = R("T", 0, 250, 500);
   const bool given = sym_choice("given", 0, 0, 1);
   m["name"] = "magnet";
   if (given) { m["alpha_B_r"] = a; m["T_ref"] = T0; m["B_r_T_ref"] = b; }
   RemnantFluxCoefficient c(m);
   At at;
   derivatives(c, T, true);
   const double v = c.Eval(at.T(), at.ip, T);
   if (given) { sym_assert_eq(v, b + b * a / 100 * (T - T0), "remanence is linear in temperature"); }
   else { sym_assert_near(v, 1.39 * (1 - 0.0012 * (T - 293.15)), 1e-9, "remanence is linear in temperature"); }
   sym_reach("done");
}
extern "C" void h_ph_knee()
{
   json m, lib;
   const double a = R("alpha", 0, -1, 1), b = R("beta", 0, -2, 2), T = R("T", 0, 250, 500);
   const int form = sym_choice("form", 0, 0, 2);
   lib["magnet"]["Demag"] = {{"alpha_B_knee", a}, {"beta_B_knee", b}};
   m["name"] = "magnet";
   if (form < 2) { m["Demag"] = json::object(); }
   if (form == 1) { m["Demag"] = {{"alpha_B_knee", a}, {"beta_B_knee", b}}; lib["magnet"]["Demag"] = {{"alpha_B_knee", 7.0}, {"beta_B_knee", 8.0}}; }
   const json o = component(m);
   const bool whole = sym_choice("whole", 0, 0, 1);
   DemagFluxCoefficient c(whole ? o : o["components"], lib);
   At at;
   const double v = c.Eval(at.T(), at.ip, T);
   if (form < 2) { derivatives(c, T, true); sym_assert_eq(v, a * T + b, "the knee is linear in temperature"); }
   else { sym_assert_eq(v, 0.0, "a magnet without data has its knee at zero"); }
   sym_reach("done");
}
extern "C" void h_ph_demag()
{
   static const char *K[] = {"T0", "alpha_B_r", "B_r_T0", "alpha_H_ci", "H_ci_T0", "alpha_B_knee", "beta_B_knee", "alpha_H_knee", "beta_H_knee"};
   static const double lo[] = {280, -1, 1, -1, -2000, 0.001, -2, 1, -3000}, hi[] = {300, -0.01, 2, -0.01, -500, 0.01, -1, 10, -2000};
   json m, lib;
   m["name"] = "magnet";
   const bool given = sym_choice("given", 0, 0, 1);
   double v[9];
   m["Demag"] = json::object();
   lib["magnet"]["Demag"] = json::object();
   for (int i = 0; i < 9; ++i)
   {
      v[i] = R(K[i], 0, lo[i], hi[i]);
      if (given) { m["Demag"][K[i]] = v[i]; lib["magnet"]["Demag"][K[i]] = 0.5; }
      else { lib["magnet"]["Demag"][K[i]] = v[i]; }
   }
   const json o = component(m);
   PMDemagConstraintCoefficient c(sym_choice("whole", 0, 0, 1) ? o : o["components"], lib);
   const double B = R("B", 0, -2, 2), T = R("T", 0, 300, 450);
   At at;
   auto &t = at.T();
   const double Bk = v[5] * T + v[6], Hk = v[7] * T + v[8], Br = v[2] * (1 + v[1] / 100 * (T - v[0])), Hc = v[4] * (1 + v[3] / 100 * (T - v[0]));
   sym_assume(Bk > 0.001 || Bk < -0.001);
   sym_assume(Br - Bk > 0.001);
   const double C = c.Eval(t, at.ip, B, T), C1 = c.EvalDerivS1(t, at.ip, B, T), C2 = c.EvalDerivS2(t, at.ip, B, T);
   sym_observe("value", C);
   // the line through (Br, 0) and the knee, against the line through the knee and (0, Hci)
   sym_assert_eq(C, Hk * (B - Br) / (Bk - Br) - (Hc + (Hk - Hc) * B / Bk), "margin between the two branches of the demagnetization curve");
   sym_assert_eq(C1, sym_diff(C, B), "derivative with respect to flux density");
   sym_assert_eq(C2, sym_diff(C, T), "derivative with respect to temperature");
   sym_assert_eq(c.Eval2ndDerivS1(t, at.ip, B, T), sym_diff(C1, B), "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS2(t, at.ip, B, T), sym_diff(C2, T), "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS1S2(t, at.ip, B, T), sym_diff(C1, T), "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS2S1(t, at.ip, B, T), sym_diff(C2, B), "second derivatives");
   sym_reach("done");
}
// ------------------------------------------------------------- loss models
template <class C> static void loss(const char *k0, const char *k1)
{
   const int n = sym_choice("terms", 0, 1, 4);
   json m, lib;
   m["name"] = "steel";
   std::vector<double> a, b;
   for (int i = 0; i < n; ++i) { a.push_back(R("k0", i, 0, 1)); b.push_back(R("k1", i, 0, 1)); }
   const double T0 = R("T0", 0, 280, 300), T1 = R("T1", 0, 350, 500);
   const bool given = sym_choice("given", 0, 0, 1);
   m["core_loss"] = json::object();
   json d;
   d["T0"] = T0;
   d["T1"] = T1;
   d[k0] = a;
   d[k1] = b;
   if (given) { m["core_loss"] = d; lib["steel"]["core_loss"]["CAL2"] = {{"T0", 1.0}, {"T1", 2.0}, {k0, {1.0}}, {k1, {2.0}}}; }
   else { lib["steel"]["core_loss"]["CAL2"] = d; }
   const json o = component(m);
   C c(sym_choice("whole", 0, 0, 1) ? o : o["components"], lib);
   const bool zero = sym_choice("zero", 0, 0, 1);
   const double T = R("T", 0, 250, 500), f = R("f", 0, 1, 5000), B = zero ? 0.0 : R("B", 0, 0.01, 3);
   double s = 0.0, r = 0.0, q = 1.0;
   for (int i = 0; i < n; ++i) { s += a[i] * q; r += b[i] * q; q *= B; }
   sym_assume(s > 0.001);
   At at;
   auto &t = at.T();
   const double v = c.Eval(t, at.ip, T, f, B), v1 = c.EvalDerivS1(t, at.ip, T, f, B), v2 = c.EvalDerivS2(t, at.ip, T, f, B), v3 = c.EvalDerivS3(t, at.ip, T, f, B);
   sym_observe("value", v);
   sym_assert_eq(v, s + (r - s) * (T - T0) / (T1 - T0), "loss coefficient interpolates between the two temperatures");
   if (T >= T0 && T <= T1) { sym_assert(v >= 0.0, "loss coefficient is not negative"); }
   sym_assert_eq(v1, sym_diff(v, T), "derivative with respect to temperature");
   sym_assert_eq(v2, 0.0, "derivative with respect to frequency");
   if (zero)
   {
      const double x = n > 1 ? a[1] : 0.0, y = n > 1 ? b[1] : 0.0;
      sym_assert_eq(v3, x + (y - x) * (T - T0) / (T1 - T0), "derivative with respect to peak flux at zero flux");
      sym_reach("zero");
      const double e = n > 2 ? 2 * a[2] : 0.0, g = n > 2 ? 2 * b[2] : 0.0;
      sym_assert_eq(c.Eval2ndDerivS3(t, at.ip, T, f, B), e + (g - e) * (T - T0) / (T1 - T0), "second derivative at zero flux");
      sym_assert_eq(c.Eval2ndDerivS1S3(t, at.ip, T, f, B), (y - x) / (T1 - T0), "second derivative at zero flux");
      sym_assert_eq(c.Eval2ndDerivS3S1(t, at.ip, T, f, B), (y - x) / (T1 - T0), "second derivative at zero flux");
      return;
   }
   sym_assert_eq(v3, sym_diff(v, B), "derivative with respect to peak flux");
   sym_assert_eq(c.Eval2ndDerivS1(t, at.ip, T, f, B), sym_diff(v1, T), "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS2(t, at.ip, T, f, B), 0.0, "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS3(t, at.ip, T, f, B), sym_diff(v3, B), "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS1S3(t, at.ip, T, f, B), sym_diff(v1, B), "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS3S1(t, at.ip, T, f, B), sym_diff(v3, T), "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS1S2(t, at.ip, T, f, B), 0.0, "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS2S1(t, at.ip, T, f, B), 0.0, "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS2S3(t, at.ip, T, f, B), 0.0, "second derivatives");
   sym_assert_eq(c.Eval2ndDerivS3S2(t, at.ip, T, f, B), 0.0, "second derivatives");
   sym_reach("done");
}
extern "C" void h_ph_kh() { loss<CAL2khCoefficient>("kh_T0", "kh_T1"); }
extern "C" void h_ph_ke() { loss<CAL2keCoefficient>("ke_T0", "ke_T1"); }
// ------------------------------------------------------- blended materials
extern "C" void h_ph_blend()
{
   json m, lib;
   const double a = R("a", 0, 0.5, 500), b = R("b", 0, 0.5, 500), w = R("w", 0, 0, 1);
   static const char *W[] = {"average", "daverage", "Hashin-Shtrikman", "dHashin-Shtrikman"};
   const int k = sym_choice("weight", 0, 0, 3);
   lib["x"]["p"] = a;
   lib["y"]["p"] = b;
   lib["wire"]["p"] = {{"materials", {"x", "y"}}, {"weighted_by", "fill_factor"}, {"weight", W[k]}};
   json o = component("wire");
   auto c = constructMaterialCoefficient("p", o["components"], lib, 1.0);
   At at;
   const bool set = sym_choice("set", 0, 0, 1);
   if (set)
   {
      MISOInputs in{{"fill_factor", w}};
      c->setInputs(in);
   }
   const double f = set ? w : 0.5;
   const double v = c->Eval(at.T(), at.ip);
   const double hi = a > b ? a : b, lo = a > b ? b : a;
   // fraction of the larger value
   const double avg = f * hi + (1 - f) * lo;
   const double hs = lo * ((1 + f) * hi + (1 - f) * lo) / ((1 - f) * hi + (1 + f) * lo);
   sym_observe("value", v);
   if (k == 0) { sym_assert_eq(v, avg, "weighted average"); }
   if (k == 1 && set) { sym_assert_eq(v, sym_diff(avg, w), "derivative of the weighted average"); }
   if (k == 2) { sym_assert_eq(v, hs, "Hashin-Shtrikman bound"); sym_assert(v >= lo && v <= hi, "a blend lies between its parts"); }
   if (k == 3 && set) { sym_assert_eq(v, sym_diff(hs, w), "derivative of the Hashin-Shtrikman bound"); }
   sym_reach("done");
}
