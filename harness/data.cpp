// The default options and the material library.
#include <cmath>
#include <string>
#include <vector>
#include "nlohmann/json.hpp"
#include "default_options.hpp"
#include "material_library.hpp"
#include "sym.h"
using json = nlohmann::json;
// section, key, type (b bool, i integer, n number, s string, a array), range or admissible values
struct Row { const char *sec, *key; char type; double lo, hi; const char *in; };
static const double INF = 1e300;
#define SOLVERS "|hypregmres|gmres|hyprefgmres|fgmres|hyprepcg|pcg|minres|"
#define PRECS "|hypreilu|hypreeuclid|hypreams|hypreboomeramg|"
#define ILU "|0|1|10|11|20|21|30|31|40|41|50|"
static const Row ROWS[] = {
   {"print-options", "", 'b', 0, 0, ""}, {"test-ode", "", 'b', 0, 0, ""}, {"steady", "", 'b', 0, 0, ""},
   {"paraview", "directory", 's', 0, 0, ""}, {"paraview", "log", 'b', 0, 0, ""}, {"paraview", "fields", 'a', 0, 0, ""}, {"paraview", "each-timestep", 'b', 0, 0, ""},
   {"flow-param", "entropy-state", 'b', 0, 0, ""}, {"flow-param", "mach", 'n', 1e-9, 100, ""}, {"flow-param", "aoa", 'n', -360, 360, ""},
   {"flow-param", "roll-axis", 'i', 0, 2, ""}, {"flow-param", "pitch-axis", 'i', 0, 2, ""}, {"flow-param", "viscous", 'b', 0, 0, ""},
   {"flow-param", "Re", 'n', 0, INF, ""}, {"flow-param", "Pr", 'n', 1e-9, INF, ""}, {"flow-param", "mu", 'n', -INF, INF, ""},
   {"flow-param", "inviscid-mms", 'b', 0, 0, ""}, {"flow-param", "viscous-mms", 'b', 0, 0, ""},
   {"space-dis", "degree", 'i', 0, 10, ""}, {"space-dis", "lps-coeff", 'n', 0, INF, ""}, {"space-dis", "iface-coeff", 'n', 0, INF, ""},
   {"space-dis", "basis-type", 's', 0, 0, "|csbp|dsbp|"}, {"space-dis", "flux-fun", 's', 0, 0, "|IR|Euler|"},
   {"time-dis", "type", 's', 0, 0, "|RK1|RK4|MIDPOINT|RRK|RRKMIDPOINT|RRK6|PTC|steady|"}, {"time-dis", "steady", 'b', 0, 0, ""},
   {"time-dis", "steady-abstol", 'n', 1e-300, 1e-2, ""}, {"time-dis", "steady-reltol", 'n', 1e-300, 1e-2, ""}, {"time-dis", "res-exp", 'n', 0, 100, ""},
   {"time-dis", "const-cfl", 'b', 0, 0, ""}, {"time-dis", "t-initial", 'n', -INF, INF, ""}, {"time-dis", "t-final", 'n', -INF, INF, ""},
   {"time-dis", "dt", 'n', 1e-300, INF, ""}, {"time-dis", "cfl", 'n', 1e-300, INF, ""}, {"time-dis", "max-iter", 'i', 1, 2147483647, ""}, {"time-dis", "entropy-log", 'b', 0, 0, ""},
   {"nonlin-solver", "type", 's', 0, 0, "|newton|inexactnewton|relaxednewton|"}, {"nonlin-solver", "printlevel", 'i', -1, 5, ""}, {"nonlin-solver", "maxiter", 'i', 1, 2147483647, ""},
   {"nonlin-solver", "reltol", 'n', 1e-300, 1e-2, ""}, {"nonlin-solver", "abstol", 'n', 1e-300, 1e-2, ""}, {"nonlin-solver", "abort", 'b', 0, 0, ""},
   {"lin-solver", "type", 's', 0, 0, SOLVERS}, {"lin-solver", "printlevel", 'i', -1, 5, ""}, {"lin-solver", "maxiter", 'i', 1, 2147483647, ""},
   {"lin-solver", "reltol", 'n', 1e-300, 1e-2, ""}, {"lin-solver", "abstol", 'n', 1e-300, 1e-2, ""}, {"lin-solver", "kdim", 'i', 1, 2147483647, ""},
   {"lin-prec", "type", 's', 0, 0, PRECS}, {"lin-prec", "lev-fill", 'i', 0, 100, ""}, {"lin-prec", "ilu-type", 'i', 0, 50, ILU}, {"lin-prec", "ilu-reorder", 'i', 0, 1, ""}, {"lin-prec", "printlevel", 'i', 0, 3, ""},
   {"adj-solver", "type", 's', 0, 0, SOLVERS}, {"adj-solver", "printlevel", 'i', -1, 5, ""}, {"adj-solver", "maxiter", 'i', 1, 2147483647, ""},
   {"adj-solver", "reltol", 'n', 1e-300, 1e-2, ""}, {"adj-solver", "abstol", 'n', 1e-300, 1e-2, ""}, {"adj-solver", "kdim", 'i', 1, 2147483647, ""},
   {"adj-prec", "type", 's', 0, 0, PRECS}, {"adj-prec", "lev-fill", 'i', 0, 100, ""}, {"adj-prec", "ilu-type", 'i', 0, 50, ILU}, {"adj-prec", "ilu-reorder", 'i', 0, 1, ""}, {"adj-prec", "printlevel", 'i', 0, 3, ""},
   {"petscsolver", "ksptype", 's', 0, 0, ""}, {"petscsolver", "pctype", 's', 0, 0, ""}, {"petscsolver", "abstol", 'n', 1e-300, 1e-2, ""}, {"petscsolver", "reltol", 'n', 1e-300, 1e-2, ""},
   {"petscsolver", "maxiter", 'i', 1, 2147483647, ""}, {"petscsolver", "printlevel", 'i', 0, 5, ""},
   {"mesh", "file", 's', 0, 0, ""}, {"mesh", "model-file", 's', 0, 0, ""}, {"mesh", "refine", 'i', 0, 20, ""},
};
static const int NROWS = sizeof(ROWS) / sizeof(Row);
extern "C" void h_defaults()
{
   const Row &r = ROWS[sym_choice("option", 0, 0, NROWS - 1)];
   const json &d = miso::default_options;
   sym_assert(d.is_object() && d.contains(r.sec), "every option has a default");
   if (!d.contains(r.sec)) { return; }
   const json *v = &d[r.sec];
   if (r.key[0])
   {
      const bool has = v->is_object() && v->contains(r.key);
      sym_assert(has, "every option has a default");
      if (!has) { return; }
      v = &(*v)[r.key];
   }
   bool type = false;
   switch (r.type)
   {
      case 'b': type = v->is_boolean(); break;
      case 'i': type = v->is_number_integer(); break;
      case 'n': type = v->is_number(); break;
      case 's': type = v->is_string() && !v->get<std::string>().empty(); break;
      case 'a': type = v->is_array() && v->size() > 0; break;
   }
   sym_assert(type, "the default has the documented type");
   if (!type) { return; }
   if (r.type == 'i' || r.type == 'n') { const double x = v->get<double>(); sym_assert(x >= r.lo && x <= r.hi, "the default is inside the admissible range"); }
   if (r.in[0])
   {
      const std::string s = r.type == 's' ? v->get<std::string>() : std::to_string(v->get<int>());
      sym_assert(std::string(r.in).find("|" + s + "|") != std::string::npos, "the default is one of the values understood");
   }
   if (std::string(r.key) == "t-final") { sym_assert(v->get<double>() > d["time-dis"]["t-initial"].get<double>(), "the default interval of time is not empty"); }
   if (std::string(r.key) == "pitch-axis") { sym_assert(v->get<int>() != d["flow-param"]["roll-axis"].get<int>(), "the default axes differ"); }
   sym_reach("done");
}
static const char *NAMES[] = {"hiperco50", "team13", "Nd2Fe14B", "air", "moving_air", "copperwire", "copper", "aluminumwire", "aluminum", "silverwire", "silver", "magnesiumwire", "magnesium", "ironwire", "iron", "2024_T3", "epoxy"};
static const int NNAMES = sizeof(NAMES) / sizeof(char *);
struct Prop { const char *name; double lo, hi; };
static const Prop L[] = {{"rho", 0.5, 23000}, {"kappa", 0.005, 2000}, {"cv", 0.01, 15000}, {"mu_r", 0.9, 1e6}, {"sigma", 1e4, 1e9}, {"max-temp", 273, 5000}};
static bool positive(const json &v) { return v.is_number() && v.get<double>() > 0.0 && v.get<double>() < 1e12; }
static const json &lib() { return miso::material_library; }
// a property that is a blend of two other materials
static void composite(const json &c, const std::string &what, const std::string &of)
{
   const bool shape = c.is_object() && c.contains("materials") && c["materials"].is_array() && c["materials"].size() == 2 && c.contains("weighted_by") && c.contains("weight");
   sym_assert(shape, "a blend names its two materials and its weight");
   if (!shape) { return; }
   sym_assert(c["weighted_by"] == "fill_factor", "a blend is weighted by an input of the solver");
   for (const auto &m : c["materials"])
   {
      const bool has = m.is_string() && lib().contains(m.get<std::string>());
      sym_assert(has, "a blend is of materials in the library");
      if (!has) { continue; }
      const json &p = lib()[m.get<std::string>()];
      sym_assert(p.contains(of) && positive(p[of]), "the materials of a blend have the property blended");
      if (what == "drho_df") { sym_assert(p.contains(what) && p[what] == p[of], "the derivative of a blend is of the values blended"); }
   }
   sym_assert(c["materials"][0] != c["materials"][1], "a blend is of two materials");
}
extern "C" void h_materials()
{
   const std::string name = NAMES[sym_choice("material", 0, 0, NNAMES - 1)];
   sym_assert(lib().contains(name) && lib()[name].is_object(), "the material is in the library");
   if (!lib().contains(name)) { return; }
   const json &m = lib()[name];
   const bool wire = name.size() > 4 && name.substr(name.size() - 4) == "wire";
   if (name != "team13") { sym_assert(m.contains("rho") && m.contains("kappa"), "density and conductivity are given"); }
   for (const Prop &q : L)
   {
      const char *k = q.name;
      if (!m.contains(k)) { continue; }
      if (m[k].is_object()) { composite(m[k], k, k); }
      else { sym_assert(positive(m[k]), "a physical property is positive"); const double x = m[k].get<double>(); sym_assert(x >= q.lo && x <= q.hi, "a physical property is in the range of matter"); }
   }
   if (wire)
   {
      const std::string metal = name.substr(0, name.size() - 4);
      for (const char *k : {"rho", "kappa"})
      {
         const bool both = m.contains(k) && m[k].is_object() && m.contains("d" + std::string(k) + "_df");
         sym_assert(both, "a wire is a blend and has the derivative of the blend");
         if (!both) { continue; }
         const json &d = m["d" + std::string(k) + "_df"];
         composite(d, "d" + std::string(k) + "_df", k);
         sym_assert(d["materials"] == m[k]["materials"] && d["weighted_by"] == m[k]["weighted_by"], "the derivative is of the same blend");
         const std::string w = m[k]["weight"].get<std::string>();
         sym_assert(w == "average" || w == "Hashin-Shtrikman", "the weight is one understood");
         sym_assert(d["weight"].get<std::string>() == "d" + w, "the derivative is of the same weight");
         sym_assert(m[k]["materials"][0] == metal && m[k]["materials"][1] == "epoxy", "a wire is metal and epoxy");
      }
      const bool lin = m.contains("conductivity") && m["conductivity"].contains("linear");
      sym_assert(lin && m.contains("sigma") && m.contains("cv"), "a wire has a conductivity");
      if (lin)
      {
         const json &c = m["conductivity"]["linear"];
         const bool all = c.contains("sigma_T_ref") && c.contains("T_ref") && c.contains("alpha_resistivity");
         sym_assert(all, "the conductivity model has its data");
         if (all)
         {
            const double T = sym_real_in("temperature", 0, 200, 600);
            const double f = 1.0 + c["alpha_resistivity"].get<double>() * (T - c["T_ref"].get<double>());
            sym_assert(positive(c["sigma_T_ref"]) && f > 0.0, "conductivity is positive at every temperature");
            sym_assert(f < 3.0, "conductivity does not vanish in range");
            sym_assert(c["alpha_resistivity"].get<double>() > 0.0, "the resistivity of a metal rises with temperature");
            if (m.contains("sigma")) { const double q = m["sigma"].get<double>() / c["sigma_T_ref"].get<double>(); sym_assert(q > 0.9 && q < 1.1, "the two conductivities agree at the reference temperature"); }
         }
      }
   }
   if (name == "Nd2Fe14B")
   {
      for (const char *k : {"B_r", "alpha_B_r", "T_ref", "mu_r", "max-temp"}) { sym_assert(m.contains(k) && m[k].is_number(), "the magnet has the data of its models"); }
      sym_assert(m.contains("Demag"), "the magnet has the data of its models");
      const json &d = m["Demag"];
      for (const char *k : {"T0", "alpha_B_r", "B_r_T0", "alpha_H_ci", "H_ci_T0", "alpha_B_knee", "beta_B_knee", "alpha_H_knee", "beta_H_knee"}) { sym_assert(d.contains(k) && d[k].is_number(), "the magnet has the data of its models"); }
      const double T = sym_real_in("magnet", 0, 250, 450);
      sym_assert(m["B_r"].get<double>() * (1.0 + m["alpha_B_r"].get<double>() / 100.0 * (T - m["T_ref"].get<double>())) > 0.5, "the magnet stays a magnet");
      sym_assert(m["alpha_B_r"].get<double>() < 0.0 && d["alpha_B_r"].get<double>() < 0.0 && d["alpha_H_ci"].get<double>() < 0.0, "a magnet weakens with temperature");
      sym_assert(d["H_ci_T0"].get<double>() < 0.0 && d["B_r_T0"].get<double>() > 0.0, "the magnet's curve lies in the second quadrant");
      const double B = d["alpha_B_knee"].get<double>() * T + d["beta_B_knee"].get<double>();
      const double Br = d["B_r_T0"].get<double>() * (1.0 + d["alpha_B_r"].get<double>() / 100.0 * (T - d["T0"].get<double>()));
      sym_assert(B < Br, "the knee lies below the remanence");
      sym_assert(d["alpha_H_knee"].get<double>() * T + d["beta_H_knee"].get<double>() < 0.0, "the knee lies in the second quadrant");
      sym_assert(m["B_r"] == d["B_r_T0"] && m["alpha_B_r"] == d["alpha_B_r"] && m["T_ref"] == d["T0"], "the two models of the magnet have the same data");
   }
   sym_reach("done");
}
// spline data
extern "C" void h_splines()
{
   static const char *S[][2] = {{"hiperco50", "lognu"}, {"hiperco50", "bh"}, {"team13", "bh"}};
   const int k = sym_choice("spline", 0, 0, 2);
   const bool has = lib().contains(S[k][0]) && lib()[S[k][0]].contains("reluctivity") && lib()[S[k][0]]["reluctivity"].contains(S[k][1]);
   sym_assert(has, "the reluctivity model has its data");
   if (!has) { return; }
   const json &s = lib()[S[k][0]]["reluctivity"][S[k][1]];
   const std::vector<double> c = s["cps"].get<std::vector<double>>(), t = s["knots"].get<std::vector<double>>();
   const int p = s.value("degree", 3);
   sym_assert(p >= 1 && p <= 5, "degree of the spline");
   sym_assert(t.size() == c.size() + p + 1, "a spline has one knot more than control points and degree");
   if (t.size() != c.size() + p + 1) { return; }
   for (size_t i = 1; i < t.size(); ++i) { sym_assert(t[i] >= t[i - 1], "knots do not decrease"); }
   for (int i = 1; i <= p; ++i) { sym_assert(t[i] == t[0] && t[t.size() - 1 - i] == t.back(), "the ends of the spline are its first and last control points"); }
   for (size_t i = p + 1; i + p + 1 < t.size(); ++i) { sym_assert(t[i] > t[i - 1], "the spline is smooth inside"); }
   sym_assert(t[0] == 0.0 && t.back() >= 2.0 && t.back() <= 4.0, "the spline is over flux densities");
   if (S[k][1][0] == 'b')
   {
      sym_assert(c[0] == 0.0, "no field at zero flux");
      for (size_t i = 1; i < c.size(); ++i) { sym_assert(c[i] > 0.0, "the field is positive"); }
      sym_assert(c.back() > 1000.0, "the steel saturates");
   }
   else
   {
      for (size_t i = 0; i < c.size(); ++i) { sym_assert(c[i] > 0.0 && c[i] < 13.6, "reluctivity is between that of iron and that of vacuum"); }
   }
   sym_reach("done");
}
// core loss data
static double poly(const json &c, double b) { double s = 0.0, q = 1.0; for (const auto &x : c) { s += x.get<double>() * q; q *= b; } return s; }
extern "C" void h_losses()
{
   const json &m = lib()["hiperco50"];
   const bool has = m.contains("core_loss") && m["core_loss"].contains("steinmetz") && m["core_loss"].contains("CAL2");
   sym_assert(has, "the steel has the data of its loss models");
   if (!has) { return; }
   const json &s = m["core_loss"]["steinmetz"], &c = m["core_loss"]["CAL2"];
   for (const char *k : {"ks", "alpha", "beta"}) { sym_assert(s.contains(k) && positive(s[k]), "Steinmetz data are positive"); }
   sym_assert(s["alpha"].get<double>() >= 1.0 && s["alpha"].get<double>() <= 2.0 && s["beta"].get<double>() >= 1.0 && s["beta"].get<double>() <= 3.0, "Steinmetz exponents are in their range");
   for (const char *k : {"T0", "T1", "kh_T0", "kh_T1", "ke_T0", "ke_T1"}) { sym_assert(c.contains(k), "the loss model has its data"); }
   sym_assert(positive(c["T0"]) && positive(c["T1"]) && c["T1"].get<double>() > c["T0"].get<double>(), "the loss model interpolates between two temperatures");
   for (const char *k : {"kh_T0", "kh_T1", "ke_T0", "ke_T1"}) { sym_assert(c[k].is_array() && c[k].size() >= 4, "the loss model has its data"); }
   const double b = sym_real_in("B", 0, 0.1, 2.0);
   for (const char *k : {"kh_T0", "kh_T1", "ke_T0", "ke_T1"}) { sym_assert(poly(c[k], b) > 0.0, "loss coefficients are positive"); }
   sym_reach("done");
}
