// Fixed smooth interpretation of uninterpreted functions, shared by the
// engine's numeric evaluation and the native replay runtime.  A name may carry
// a derivative tag: "nu'aab" is d^3 nu / dx0 dx0 dx1.
#pragma once
#include <cmath>
#include <string>
static inline double verif_uf_weight(const std::string &base, int i)
{
   unsigned h = 2166136261u;
   for (char c : base) { h = (h ^ (unsigned char)c) * 16777619u; }
   h = (h ^ (unsigned)(i + 17)) * 16777619u;
   h ^= h >> 13;
   return 0.5 + (h % 1000) / 1000.0;
}
static inline double verif_uf_eval(const std::string &name, int n, const double *x)
{
   std::string base = name, tag;
   auto p = name.find('\'');
   if (p != std::string::npos) { base = name.substr(0, p); tag = name.substr(p + 1); }
   double s = 0.0;
   for (int i = 0; i < n; ++i) { s += verif_uf_weight(base, i) * x[i]; }
   double m = 1.0;
   for (char c : tag) { m *= 0.15 * verif_uf_weight(base, c - 'a'); }
   double e = std::exp(0.15 * s);
   return tag.empty() ? 1.0 + e : m * e;
}
