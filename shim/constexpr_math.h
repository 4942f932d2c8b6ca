// clang does not fold <cmath> calls in constant expressions (g++ does); the
// constants of namespace miso::euler need pow and log there.  These overloads
// are found by unqualified lookup inside that namespace only.
#ifndef VERIF_CONSTEXPR_MATH
#define VERIF_CONSTEXPR_MATH
namespace miso
{
namespace euler
{
constexpr double log(double x)
{
   int k = 0;
   long double y = x;
   while (y > 1.5L) { y /= 2.0L; ++k; }
   while (y < 0.75L) { y *= 2.0L; --k; }
   long double z = (y - 1.0L) / (y + 1.0L), z2 = z * z, t = z, s = 0.0L;
   for (int n = 1; n < 80; n += 2) { s += t / n; t *= z2; }
   return (double)(2.0L * s + k * 0.693147180559945309417232121458176568L);
}
constexpr double pow(double b, double e)
{
   int k = 0;
   long double y = b;
   while (y > 1.5L) { y /= 2.0L; ++k; }
   while (y < 0.75L) { y *= 2.0L; --k; }
   long double z = (y - 1.0L) / (y + 1.0L), z2 = z * z, t = z, s = 0.0L;
   for (int n = 1; n < 80; n += 2) { s += t / n; t *= z2; }
   long double l = (2.0L * s + k * 0.693147180559945309417232121458176568L) * e;
   int m = 0;
   while (l > 0.5L || l < -0.5L) { l /= 2.0L; ++m; }
   long double r = 1.0L, u = 1.0L;
   for (int n = 1; n < 40; ++n) { u *= l / n; r += u; }
   for (int i = 0; i < m; ++i) { r *= r; }
   return (double)r;
}
}
}
#endif
