#include <cstring>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <string>
#include <variant>
#include "mfem.hpp"
#include "symfs.hpp"
#include "data_logging.hpp"
using namespace miso;
#ifdef VERIF_THOROUGH
static const int NMAX = 4;
#else
static const int NMAX = 3;
#endif
static unsigned long bits(double d) { unsigned long u; memcpy(&u, &d, 8); return u; }
// any vector, time and destination: what is read is what was saved, bit by bit
template <class L> static void roundtrip(bool finite)
{
   int n = sym_choice("n", 0, 0, NMAX), m = sym_choice("m", 0, 0, 2);
   mfem::Vector v(n), w(m);
   double keep[8];
   for (int i = 0; i < n; ++i)
   {
      keep[i] = v(i) = sym_double("v", i);
      if (finite) { sym_assume(v(i) - v(i) == 0.0); }
   }
   for (int i = 0; i < m; ++i) { w(i) = 7.0; }
   double t = sym_double("t", 0), t2 = -1.0;
   if (finite) { sym_assume(t - t == 0.0); }
   L::saveState(v, "field", 3, t, 1);
   L::readState("field", 3, 1, t2, w);
   sym_assert(bits(t2) == bits(t), "time is restored exactly");
   sym_assert(w.Size() == n, "the vector has the saved size");
   sym_observe_int("size", w.Size());
   for (int i = 0; i < n; ++i)
   {
      sym_assert(bits(w(i)) == bits(keep[i]), "every entry is restored exactly");
      sym_assert(bits(v(i)) == bits(keep[i]), "saving does not change the state");
   }
}
extern "C" void h_log_binary() { roundtrip<BinaryLogger>(false); }
extern "C" void h_log_ascii() { roundtrip<ASCIILogger>(true); }

// a state saved under one (field, step, rank) is not disturbed by later saves
// under another, whatever the numbers
static int num(const char *nm, int hi)
{
   return sym_int(nm, 0, 0, hi);
}
template <class L> static void separate()
{
   static const char *names[] = {"u", "u_1", "v"};
   int f1 = sym_choice("f1", 0, 0, 2), f2 = sym_choice("f2", 0, 0, 2);
   int t1 = num("t1", 120), t2 = num("t2", 120), r1 = num("r1", 12), r2 = num("r2", 12);
   sym_assume(f1 != f2 || t1 != t2 || r1 != r2);
   mfem::Vector a(2), b(1), c;
   a(0) = 1.0; a(1) = 2.0;
   b(0) = 3.0;
   L::saveState(a, names[f1], t1, 0.25, r1);
   L::saveState(b, names[f2], t2, 0.5, r2);
   double t = 0;
   L::readState(names[f1], t1, r1, t, c);
   sym_assert(t == 0.25 && c.Size() == 2 && c(0) == 1.0 && c(1) == 2.0, "the first state is intact");
   L::readState(names[f2], t2, r2, t, c);
   sym_assert(t == 0.5 && c.Size() == 1 && c(0) == 3.0, "the second state is intact");
   sym_observe("t", t);
}
extern "C" void h_log_binary_keys() { separate<BinaryLogger>(); }
extern "C" void h_log_ascii_keys() { separate<ASCIILogger>(); }

// saving again under the same key replaces the earlier state, longer or shorter
template <class L> static void replace()
{
   int n = sym_choice("n", 0, 0, NMAX), m = sym_choice("m", 0, 0, NMAX);
   mfem::Vector a(n), b(m), c(2);
   for (int i = 0; i < n; ++i) { a(i) = i + 1.0; }
   for (int i = 0; i < m; ++i) { b(i) = 10.0 + i; }
   int t0 = sym_choice("step", 0, 0, 1), rank = sym_choice("rank", 0, 0, 1);
   L::saveState(a, "s", t0, 1.0, rank);
   L::saveState(b, "s", t0, 2.0, rank);
   double t = 0;
   L::readState("s", t0, rank, t, c);
   sym_assert(t == 2.0 && c.Size() == m, "the later state replaces the earlier one");
   for (int i = 0; i < m && i < c.Size(); ++i) { sym_assert(c(i) == 10.0 + i, "entries are the later ones"); }
   sym_observe_int("size", c.Size());
}
extern "C" void h_log_binary_replace() { replace<BinaryLogger>(); }
extern "C" void h_log_ascii_replace() { replace<ASCIILogger>(); }

// the two formats keep apart
extern "C" void h_log_formats()
{
   mfem::Vector a(1), b(1), c;
   a(0) = sym_double("a", 0);
   b(0) = sym_double("b", 0);
   sym_assume(a(0) - a(0) == 0.0);
   ASCIILogger::saveState(a, "s", 0, 1.0, 0);
   BinaryLogger::saveState(b, "s", 0, 2.0, 0);
   double t = 0;
   ASCIILogger::readState("s", 0, 0, t, c);
   sym_assert(t == 1.0 && bits(c(0)) == bits(a(0)), "text state intact");
   BinaryLogger::readState("s", 0, 0, t, c);
   sym_assert(t == 2.0 && bits(c(0)) == bits(b(0)), "binary state intact");
   sym_observe("t", t);
}
