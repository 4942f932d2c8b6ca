// Harness interface.  Under the symbolic executor these calls are interpreted
// by the engine; natively (runtime/replay.cpp) inputs come from a replay file
// and assertions are checked with a tolerance.
#pragma once
extern "C"
{
double sym_real(const char *name, int idx);
double sym_real_in(const char *name, int idx, double lo, double hi);
void sym_hint(const char *name, int idx, double lo, double hi);
double sym_double(const char *name, int idx);
int sym_int(const char *name, int idx, int lo, int hi);
int sym_choice(const char *name, int idx, int lo, int hi);
void sym_assume(bool c);
void sym_assert(bool c, const char *label);
void sym_assert_eq(double a, double b, const char *label);
void sym_assert_eqs(double a, double b, const char *label, double scale);
// |a - b| <= tol, without splitting the path
void sym_assert_near(double a, double b, double tol, const char *label);
void sym_observe(const char *label, double v);
void sym_observe_int(const char *label, int v);
void sym_reach(const char *label);
void sym_fail(const char *label);
void sym_end();
void sym_abort();
void sym_allow_abort();
double sym_diff(double out, double var);
double sym_uf(const char *name, int n, const double *args);
int sym_is_symbolic();
void sym_print(const char *label, double v);
int sym_counter_inc(const char *name);
}
static inline double sym_uf1(const char *name, double x) { return sym_uf(name, 1, &x); }
