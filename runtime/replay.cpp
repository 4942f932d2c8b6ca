// Native runtime of the harness interface.  usage: PROG ENTRY REPLAYFILE
// exit 0: ran to the end with no failed assertion; 1: assertion failed
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <vector>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include "../shim/sym.h"
#include "../engine/ufmodel.h"
static std::map<std::string, std::string> in;
static bool failed = false, allowAbort = false;
static std::map<std::string, int> cnt;
// sym_diff natively: the harness is re-run in child processes with one input
// perturbed at a time; the values passed to sym_diff are kept in shared memory
struct Shared
{
   enum { CALLS = 60000, INPUTS = 400 };
   int ncalls, ninputs, pass;
   char name[INPUTS][40];
   double val[INPUTS];
   bool used[INPUTS];
   double base[CALLS];
   double out[4][CALLS];
   double deriv[CALLS];
   short var[CALLS];
};
static Shared *sh = nullptr;
static int mode = 0;        // 0 final run, 1 recording run, 2 perturbed run
static int pinput = -1, pslot = 0, ncall = 0;
static double pstep = 0.0;
static bool haveDiff = false, jitter = false;
static std::map<std::string, double> seen;
static double given(const std::string &k, double v)
{
   auto it = seen.find(k);
   if (it != seen.end()) { return it->second; }
   if (jitter) { for (bool again = true; again;) { again = false; for (auto &s : seen) { if (s.second == v) { v += fmax(1.0, fabs(v)) / 1099511627776.0; again = true; } } } }
   int id = (int)seen.size();
   double r = v;
   if (sh && mode == 1 && id < Shared::INPUTS) { strncpy(sh->name[id], k.c_str(), 39); sh->val[id] = v; sh->ninputs = id + 1; }
   if (sh && mode == 2 && pinput >= 0 && k == sh->name[pinput]) { r += pstep; }
   seen[k] = r;
   return r;
}
static std::string key(const char *n, int i) { return std::string(n) + "[" + std::to_string(i) + "]"; }
static void fail(const char *l, const std::string &d)
{
   printf("FAILED %s %s\n", l, d.c_str());
   fflush(stdout);
   failed = true;
}
extern "C"
{
double sym_real(const char *n, int i)
{
   auto it = in.find(key(n, i));
   return given(key(n, i), it == in.end() ? 0.375 : strtod(it->second.c_str(), nullptr));
}
double sym_real_in(const char *n, int i, double lo, double hi)
{
   auto it = in.find(key(n, i));
   return given(key(n, i), it == in.end() ? 0.5 * (lo + hi) : strtod(it->second.c_str(), nullptr));
}
void sym_hint(const char *, int, double, double) { }
double sym_double(const char *n, int i)
{
   auto it = in.find(key(n, i));
   if (it == in.end()) { return 1.0; }
   unsigned long long u = strtoull(it->second.c_str() + 5, nullptr, 16);
   double d;
   memcpy(&d, &u, 8);
   return d;
}
int sym_int(const char *n, int i, int lo, int) { auto it = in.find(key(n, i)); return it == in.end() ? lo : (int)strtol(it->second.c_str(), nullptr, 10); }
int sym_choice(const char *n, int i, int lo, int hi) { return sym_int(n, i, lo, hi); }
void sym_assume(bool c) { if (!c && mode == 0) { printf("ASSUMPTION\n"); fflush(stdout); _exit(failed ? 1 : 3); } }
void sym_assert(bool c, const char *l) { if (!c && mode == 0) { fail(l, ""); } }
// for looking at an encoding: the values asserted are observed as well (see engine/externs.hpp)
static void observeAssert(double v) { static int n = 0; if (mode == 0 && getenv("SYM_OBSERVE_ASSERTS") && n++ < 400) { printf("OBS asserted %.17g\n", v); } }
void sym_assert_eqs(double a, double b, const char *l, double sc)
{
   observeAssert(a);
   double m = fmax(fmax(fabs(a), fabs(b)), sc);
   if (mode == 0 && !(fabs(a - b) <= (haveDiff ? 2e-6 : 2e-8) * m)) { char t[128]; snprintf(t, sizeof t, "%.17g != %.17g", a, b); fail(l, t); }
}
void sym_assert_eq(double a, double b, const char *l) { sym_assert_eqs(a, b, l, 1.0); }
void sym_assert_near(double a, double b, double tol, const char *l)
{
   observeAssert(a);
   // the machine rounds where the encoding is exact
   tol = fmax(tol, (haveDiff ? 1e-9 : 1e-10) * fmax(fmax(fabs(a), fabs(b)), 1.0));
   if (mode == 0 && !(fabs(a - b) <= tol)) { char t[128]; snprintf(t, sizeof t, "%.17g != %.17g", a, b); fail(l, t); }
}
void sym_observe(const char *l, double v) { printf("OBS %s %.17g\n", l, v); }
void sym_observe_int(const char *l, int v) { printf("OBS %s %d\n", l, v); }
void sym_reach(const char *) { }
void sym_fail(const char *l) { if (mode) { _exit(0); } fail(l, "reached"); fflush(stdout); _exit(1); }
void sym_end() { fflush(stdout); _exit(failed ? 1 : 0); }
void sym_abort() { if (mode) { _exit(0); } if (!allowAbort) { fail("no-abort", ""); } fflush(stdout); _exit(failed ? 1 : 0); }
void sym_allow_abort() { allowAbort = true; }
double sym_diff(double out, double var)
{
   int k = ncall++;
   if (!sh || k >= Shared::CALLS) { return 0.0; }
   if (mode == 2) { sh->out[pslot][k] = out; return 0.0; }
   if (mode == 1)
   {
      int f = -1;
      for (int i = 0; i < sh->ninputs; ++i) { if (sh->val[i] == var) { f = i; break; } }
      sh->var[k] = (short)f;
      sh->base[k] = out;
      if (f >= 0) { sh->used[f] = true; }
      sh->ncalls = k + 1;
      return 0.0;
   }
   return sh->deriv[k];
}
double sym_uf(const char *n, int k, const double *a) { return verif_uf_eval(n, k, a); }
int sym_is_symbolic() { return 0; }
void sym_print(const char *l, double v) { printf("%s = %g\n", l, v); }
int sym_counter_inc(const char *n) { return ++cnt[n]; }
}
int main(int argc, char **argv)
{
   if (argc > 2)
   {
      std::ifstream f(argv[2]);
      // a name may have spaces, a value has none
      std::string l;
      while (std::getline(f, l)) { auto b = l.rfind(' '); if (b != std::string::npos) { in[l.substr(0, b)] = l.substr(b + 1); } }
   }
   void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
   if (!h) { printf("NOENTRY\n"); return 4; }
   std::set_terminate([]() { if (mode) { _exit(0); } if (!allowAbort) { printf("FAILED terminate\n"); fflush(stdout); _exit(1); } _exit(0); });
   if (getenv("VERIF_DIFF"))
   {
      sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      auto child = [&](int m) {
         fflush(stdout);
         pid_t p = fork();
         if (p == 0)
         {
            mode = m;
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
            try { h(); } catch (...) { }
            _exit(0);
         }
         int st;
         waitpid(p, &st, 0);
      };
      jitter = true;
      child(1);
      const int n = sh->ncalls;
      if (n == 0) { jitter = false; }
      std::vector<double> d(n, 0.0);
      for (int f = 0; n && f < sh->ninputs; ++f)
      {
         if (!sh->used[f]) { continue; }
         const double step = 2e-4 * fmax(fabs(sh->val[f]), 0.05);
         const double fac[4] = {-2, -1, 1, 2};
         for (pslot = 0; pslot < 4; ++pslot)
         {
            for (int k = 0; k < n; ++k) { sh->out[pslot][k] = NAN; }
            pinput = f;
            pstep = fac[pslot] * step;
            child(2);
         }
         for (int k = 0; k < n; ++k)
         {
            if (sh->var[k] == f) { d[k] = (sh->out[0][k] - 8 * sh->out[1][k] + 8 * sh->out[2][k] - sh->out[3][k]) / (12 * step); }
         }
      }
      for (int k = 0; k < n; ++k) { sh->deriv[k] = d[k]; }
      haveDiff = n > 0;
      ncall = 0;
      mode = 0;
   }
   try { h(); }
   catch (std::exception &e) { fail("uncaught-exception", e.what()); }
   catch (...) { fail("uncaught-exception", ""); }
   fflush(stdout);
   _exit(failed ? 1 : 0);
}
