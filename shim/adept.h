// Minimal stand-in for the Adept automatic differentiation library (which this
// sandbox does not have).  It implements the documented semantics of the calls
// MISO makes: expressions of adouble record (multiplier, operand) pairs on the
// active stack, and jacobian/compute_adjoint run the reverse sweep.
// jacobian() output is column-major with the dependents varying fastest, as in
// Adept's documentation.
#ifndef VERIF_ADEPT_SHIM_H
#define VERIF_ADEPT_SHIM_H
#include <cmath>
#include <cstddef>
#include <vector>

namespace adept
{
class adouble;
typedef double Real;

class Stack
{
public:
   struct Stmt { int lhs; int first; int last; };
   std::vector<Stmt> stmts;
   std::vector<double> mult;
   std::vector<int> idx;
   std::vector<int> indep, dep;
   std::vector<double> grad;
   int next = 0;
   bool recording = true;

   explicit Stack(bool activate_now = true)
   {
      if (activate_now) { active() = this; }
   }
   ~Stack() { if (active() == this) { active() = nullptr; } }
   Stack(const Stack &) = delete;
   static Stack *&active() { static Stack *s = nullptr; return s; }
   void activate() { active() = this; }
   void deactivate() { if (active() == this) { active() = nullptr; } }
   bool is_active() const { return active() == this; }

   int newIndex() { return next++; }
   void new_recording()
   {
      stmts.clear(); mult.clear(); idx.clear(); indep.clear(); dep.clear();
      grad.clear();
   }
   bool pause_recording() { bool r = recording; recording = false; return r; }
   bool continue_recording() { recording = true; return true; }
   void clear_gradients() { grad.clear(); }
   void clear_independents() { indep.clear(); }
   void clear_dependents() { dep.clear(); }

   void stmt(int lhs, int n, const double *m, const int *id)
   {
      if (!recording) { return; }
      Stmt s;
      s.lhs = lhs;
      s.first = (int)mult.size();
      for (int i = 0; i < n; ++i)
      {
         if (id[i] >= 0) { mult.push_back(m[i]); idx.push_back(id[i]); }
      }
      s.last = (int)mult.size();
      stmts.push_back(s);
   }
   void reverse(std::vector<double> &g) const
   {
      for (int k = (int)stmts.size() - 1; k >= 0; --k)
      {
         const Stmt &s = stmts[k];
         double a = g[s.lhs];
         g[s.lhs] = 0.0;
         for (int j = s.first; j < s.last; ++j) { g[idx[j]] += mult[j] * a; }
      }
   }
   inline void independent(const adouble &x);
   inline void independent(const adouble *x, std::size_t n);
   inline void dependent(const adouble &x);
   inline void dependent(const adouble *x, std::size_t n);
   void jacobian(double *jac) const
   {
      const int m = (int)dep.size(), n = (int)indep.size();
      for (int i = 0; i < m; ++i)
      {
         std::vector<double> g(next, 0.0);
         g[dep[i]] = 1.0;
         reverse(g);
         for (int j = 0; j < n; ++j) { jac[j * m + i] = g[indep[j]]; }
      }
   }
   void jacobian_reverse(double *jac) const { jacobian(jac); }
   void jacobian_forward(double *jac) const { jacobian(jac); }
   void compute_adjoint()
   {
      if ((int)grad.size() < next) { grad.resize(next, 0.0); }
      reverse(grad);
   }
   void reverse() { compute_adjoint(); }
   void set_grad(int i, double v)
   {
      if ((int)grad.size() < next) { grad.resize(next, 0.0); }
      grad[i] = v;
   }
   double get_grad(int i) const { return i < (int)grad.size() ? grad[i] : 0.0; }
};

inline Stack *active_stack() { return Stack::active(); }

class adouble
{
public:
   double v;
   int id;
   adouble() : v(0.0), id(Stack::active() ? Stack::active()->newIndex() : -1) { }
   adouble(double x) : v(x), id(-1) { init(); record0(); }
   adouble(float x) : v(x), id(-1) { init(); record0(); }
   adouble(int x) : v(x), id(-1) { init(); record0(); }
   adouble(const adouble &o) : v(o.v), id(-1) { init(); record1(1.0, o.id); }
   adouble &operator=(const adouble &o)
   {
      v = o.v; record1(1.0, o.id); return *this;
   }
   adouble &operator=(double x) { v = x; record0(); return *this; }
   double value() const { return v; }
   void set_value(double x) { v = x; }
   void set_gradient(double g) { Stack::active()->set_grad(id, g); }
   double get_gradient() const { return Stack::active()->get_grad(id); }
   void get_gradient(double &g) const { g = Stack::active()->get_grad(id); }

   static adouble op1(double val, double m, const adouble &a)
   {
      adouble r; r.v = val; r.record1(m, a.id); return r;
   }
   static adouble op2(double val, double m1, const adouble &a, double m2,
                      const adouble &b)
   {
      adouble r; r.v = val;
      double m[2] = {m1, m2}; int id[2] = {a.id, b.id};
      if (Stack::active()) { Stack::active()->stmt(r.id, 2, m, id); }
      return r;
   }
   adouble &operator+=(const adouble &b) { return *this = *this + b; }
   adouble &operator-=(const adouble &b) { return *this = *this - b; }
   adouble &operator*=(const adouble &b) { return *this = *this * b; }
   adouble &operator/=(const adouble &b) { return *this = *this / b; }
   adouble &operator+=(double b) { return *this = *this + b; }
   adouble &operator-=(double b) { return *this = *this - b; }
   adouble &operator*=(double b) { return *this = *this * b; }
   adouble &operator/=(double b) { return *this = *this / b; }

   friend adouble operator+(const adouble &a, const adouble &b)
   { return op2(a.v + b.v, 1.0, a, 1.0, b); }
   friend adouble operator+(const adouble &a, double b)
   { return op1(a.v + b, 1.0, a); }
   friend adouble operator+(double b, const adouble &a)
   { return op1(b + a.v, 1.0, a); }
   friend adouble operator-(const adouble &a, const adouble &b)
   { return op2(a.v - b.v, 1.0, a, -1.0, b); }
   friend adouble operator-(const adouble &a, double b)
   { return op1(a.v - b, 1.0, a); }
   friend adouble operator-(double b, const adouble &a)
   { return op1(b - a.v, -1.0, a); }
   friend adouble operator*(const adouble &a, const adouble &b)
   { return op2(a.v * b.v, b.v, a, a.v, b); }
   friend adouble operator*(const adouble &a, double b)
   { return op1(a.v * b, b, a); }
   friend adouble operator*(double b, const adouble &a)
   { return op1(b * a.v, b, a); }
   friend adouble operator/(const adouble &a, const adouble &b)
   { return op2(a.v / b.v, 1.0 / b.v, a, -a.v / (b.v * b.v), b); }
   friend adouble operator/(const adouble &a, double b)
   { return op1(a.v / b, 1.0 / b, a); }
   friend adouble operator/(double b, const adouble &a)
   { return op1(b / a.v, -b / (a.v * a.v), a); }
   friend adouble operator-(const adouble &a) { return op1(-a.v, -1.0, a); }
   friend adouble operator+(const adouble &a) { return op1(a.v, 1.0, a); }

#define VERIF_ADEPT_CMP(OP)                                                  \
   friend bool operator OP(const adouble &a, const adouble &b)               \
   { return a.v OP b.v; }                                                    \
   friend bool operator OP(const adouble &a, double b) { return a.v OP b; }  \
   friend bool operator OP(double a, const adouble &b) { return a OP b.v; }
   VERIF_ADEPT_CMP(<)
   VERIF_ADEPT_CMP(>)
   VERIF_ADEPT_CMP(<=)
   VERIF_ADEPT_CMP(>=)
   VERIF_ADEPT_CMP(==)
   VERIF_ADEPT_CMP(!=)
#undef VERIF_ADEPT_CMP

private:
   void init() { if (Stack::active()) { id = Stack::active()->newIndex(); } }
   void record0()
   {
      if (Stack::active()) { Stack::active()->stmt(id, 0, nullptr, nullptr); }
   }
   void record1(double m, int i)
   {
      if (Stack::active()) { Stack::active()->stmt(id, 1, &m, &i); }
   }
};

inline adouble sqrt(const adouble &a)
{ double s = std::sqrt(a.v); return adouble::op1(s, 0.5 / s, a); }
inline adouble exp(const adouble &a)
{ double s = std::exp(a.v); return adouble::op1(s, s, a); }
inline adouble log(const adouble &a)
{ return adouble::op1(std::log(a.v), 1.0 / a.v, a); }
inline adouble sin(const adouble &a)
{ return adouble::op1(std::sin(a.v), std::cos(a.v), a); }
inline adouble cos(const adouble &a)
{ return adouble::op1(std::cos(a.v), -std::sin(a.v), a); }
inline adouble tan(const adouble &a)
{ double t = std::tan(a.v); return adouble::op1(t, 1.0 + t * t, a); }
inline adouble atan(const adouble &a)
{ return adouble::op1(std::atan(a.v), 1.0 / (1.0 + a.v * a.v), a); }
inline adouble acos(const adouble &a)
{ return adouble::op1(std::acos(a.v), -1.0 / std::sqrt(1.0 - a.v * a.v), a); }
inline adouble asin(const adouble &a)
{ return adouble::op1(std::asin(a.v), 1.0 / std::sqrt(1.0 - a.v * a.v), a); }
inline adouble tanh(const adouble &a)
{ double t = std::tanh(a.v); return adouble::op1(t, 1.0 - t * t, a); }
inline adouble atan2(const adouble &y, const adouble &x)
{
   double d = y.v * y.v + x.v * x.v;
   return adouble::op2(std::atan2(y.v, x.v), x.v / d, y, -y.v / d, x);
}
inline adouble fabs(const adouble &a)
{ return a.v < 0.0 ? adouble::op1(-a.v, -1.0, a) : adouble::op1(a.v, 1.0, a); }
inline adouble abs(const adouble &a) { return fabs(a); }
inline adouble round(const adouble &a) { return adouble::op1(std::round(a.v), 0.0, a); }
inline adouble pow(const adouble &a, double b)
{ return adouble::op1(std::pow(a.v, b), b * std::pow(a.v, b - 1.0), a); }
inline adouble pow(const adouble &a, int b)
{ return pow(a, (double)b); }
inline adouble pow(const adouble &a, const adouble &b)
{
   double p = std::pow(a.v, b.v);
   return adouble::op2(p, b.v * std::pow(a.v, b.v - 1.0), a,
                       p * std::log(a.v), b);
}
inline adouble pow(double a, const adouble &b)
{ double p = std::pow(a, b.v); return adouble::op1(p, p * std::log(a), b); }
inline adouble max(const adouble &a, const adouble &b)
{ return a.v < b.v ? adouble(b) : adouble(a); }
inline adouble max(const adouble &a, double b)
{ return a.v < b ? adouble(b) : adouble(a); }
inline adouble max(double a, const adouble &b)
{ return a < b.v ? adouble(b) : adouble(a); }
inline adouble min(const adouble &a, const adouble &b)
{ return b.v < a.v ? adouble(b) : adouble(a); }
inline adouble min(const adouble &a, double b)
{ return b < a.v ? adouble(b) : adouble(a); }
inline adouble min(double a, const adouble &b)
{ return b.v < a ? adouble(b) : adouble(a); }
inline bool isnan(const adouble &a) { return std::isnan(a.v); }
inline double value(const adouble &a) { return a.v; }
inline double value(double a) { return a; }

inline void set_values(adouble *a, std::size_t n, const double *x)
{ for (std::size_t i = 0; i < n; ++i) { a[i].set_value(x[i]); } }
inline void get_values(const adouble *a, std::size_t n, double *x)
{ for (std::size_t i = 0; i < n; ++i) { x[i] = a[i].v; } }
inline void set_gradients(adouble *a, std::size_t n, const double *x)
{ for (std::size_t i = 0; i < n; ++i) { a[i].set_gradient(x[i]); } }
inline void get_gradients(const adouble *a, std::size_t n, double *x)
{ for (std::size_t i = 0; i < n; ++i) { x[i] = a[i].get_gradient(); } }

inline void Stack::independent(const adouble &x) { indep.push_back(x.id); }
inline void Stack::independent(const adouble *x, std::size_t n)
{ for (std::size_t i = 0; i < n; ++i) { indep.push_back(x[i].id); } }
inline void Stack::dependent(const adouble &x) { dep.push_back(x.id); }
inline void Stack::dependent(const adouble *x, std::size_t n)
{ for (std::size_t i = 0; i < n; ++i) { dep.push_back(x[i].id); } }
}  // namespace adept
#endif
