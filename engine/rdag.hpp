// Exact-real expression DAG used by the symbolic executor's R mode.
//  * hash-consed nodes over rationals (GMP)
//  * symbolic differentiation
//  * numeric evaluation
//  * normal form: sparse polynomial numerator over factored denominator, with
//    algebraic (root) atoms reduced -- used to simplify queries before z3
//  * translation to z3 real arithmetic with defining axioms for every
//    non-polynomial node
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum ROp : uint8_t
{
   RC, RV, RADD, RMUL, RDIV, RROOT /* a^(1/q), iv=q */, RLOG, REXP, RSIN, RCOS,
   RTAN, RATAN, RASIN, RACOS, RATAN2, RTANH, RUF, RSPECIAL
};

struct RNode
{
   ROp op;
   int id = 0;
   std::vector<RNode *> a;
   mpq_class c;        // RC
   long iv = 0;        // RROOT: q
   std::string name;   // RV, RUF
   double d = 0.0;     // RSPECIAL
   double lo = -4.0, hi = 4.0;  // RV: sampling range
};
typedef RNode *R;

struct NormalFormTooLarge : std::runtime_error
{
   NormalFormTooLarge() : std::runtime_error("normal form too large") { }
};

inline mpq_class niceRational(double x)
{
   if (x == 0.0) { return mpq_class(0); }
   mpq_class exact(x);
   double ax = std::fabs(x);
   if (ax == std::floor(ax) && ax < 1e15) { return exact; }
   // continued fraction convergents
   mpq_class rem = abs(exact);
   mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
   for (int it = 0; it < 40; ++it)
   {
      mpz_class ai = rem.get_num() / rem.get_den();
      mpz_class p2 = ai * p1 + p0, q2 = ai * q1 + q0;
      p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      mpq_class conv(p1, q1);
      conv.canonicalize();
      mpq_class err = abs(abs(exact) - conv) / abs(exact);
      double e = err.get_d();
      if (p1 == 0) { }
      else if (q1 <= 1000 && e < 1.2e-15)
      {
         return x < 0 ? mpq_class(-conv) : conv;
      }
      else if (q1 <= 1000000 && e < 2.5e-16 && p1 <= 1000000)
      {
         return x < 0 ? mpq_class(-conv) : conv;
      }
      if (q1 > 1000000) { break; }
      mpq_class fr = rem - ai;
      if (fr == 0) { break; }
      rem = 1 / fr;
   }
   // decimal literals such as 1e-12, 110.4, 1.3e-7
   for (int dig = 0; dig <= 40; ++dig)
   {
      if (dig > 15 && ax > 1e-3) { break; }
      mpz_class ten;
      mpz_ui_pow_ui(ten.get_mpz_t(), 10, dig);
      mpq_class sc = abs(exact) * ten;
      mpz_class n = (sc.get_num() * 2 + sc.get_den()) / (sc.get_den() * 2);
      if (n == 0) { continue; }
      if (n > 1000000) { break; }
      mpq_class cand(n, ten);
      cand.canonicalize();
      mpq_class err = abs(abs(exact) - cand) / abs(exact);
      if (err.get_d() < 2.5e-16) { return x < 0 ? mpq_class(-cand) : cand; }
   }
   return exact;
}

class RDag
{
public:
   // concrete operands are combined in IEEE double arithmetic, as the machine
   // does; only operations that involve a symbol are exact
   bool ieee = false;
   R rnd(double x) { return std::isfinite(x) ? cst(mpq_class(x)) : special(x); }
   z3::context &z;
   std::vector<R> nodes;
   std::unordered_map<std::string, R> table;
   std::map<std::string, R> vars;

   explicit RDag(z3::context &z_) : z(z_) { }

   R mk(ROp op, std::vector<R> a, const mpq_class *c, long iv,
        const std::string &name, double d)
   {
      std::string key(1, (char)('A' + op));
      for (R x : a) { key += std::to_string(x->id); key += ','; }
      if (c) { key += c->get_str(62); }
      if (iv) { key += '#'; key += std::to_string(iv); }
      if (!name.empty()) { key += '$'; key += name; }
      if (op == RSPECIAL) { key += std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf"; }
      auto it = table.find(key);
      if (it != table.end()) { return it->second; }
      R n = new RNode;
      n->op = op; n->a = std::move(a);
      if (c) { n->c = *c; }
      n->iv = iv; n->name = name; n->d = d;
      n->id = (int)nodes.size();
      nodes.push_back(n);
      table.emplace(std::move(key), n);
      return n;
   }
   R cst(const mpq_class &c) { return mk(RC, {}, &c, 0, "", 0); }
   R cst(long v) { mpq_class c(v); return cst(c); }
   R special(double d) { return mk(RSPECIAL, {}, nullptr, 0, "", d); }
   R fromDouble(double x)
   {
      if (!std::isfinite(x)) { return special(x); }
      if (ieee) { return cst(mpq_class(x)); }
      return cst(niceRational(x));
   }
   R var(const std::string &name)
   {
      R r = mk(RV, {}, nullptr, 0, name, 0);
      vars[name] = r;
      return r;
   }
   static bool isC(R a) { return a->op == RC; }
   static bool isC(R a, long v) { return a->op == RC && a->c == v; }
   static bool sp(R a) { return a->op == RSPECIAL; }
   double dv(R a) { return a->op == RC ? a->c.get_d() : a->d; }
   // operations touching inf / nan constants
   R spOp(char o, R a, R b)
   {
      bool ca = isC(a) || sp(a), cb = isC(b) || sp(b);
      if (ca && cb)
      {
         double x = dv(a), y = dv(b);
         double r = o == '+' ? x + y : o == '*' ? x * y : x / y;
         if (std::isfinite(r)) { return fromDouble(r); }
         return special(r);
      }
      if (o == '+' && (sp(a) || sp(b))) { return sp(a) ? a : b; }
      if (o == '/' && sp(b) && std::isinf(b->d)) { return cst(0); }
      return special(NAN);
   }
   R add(R a, R b)
   {
      if (sp(a) || sp(b)) { return spOp('+', a, b); }
      if (isC(a) && isC(b)) { if (ieee) { return rnd(dv(a) + dv(b)); } mpq_class s = a->c + b->c; return cst(s); }
      if (isC(a, 0)) { return b; }
      if (isC(b, 0)) { return a; }
      if (a->id > b->id) { std::swap(a, b); }
      if (a == b) { return mul(cst(2), a); }
      // x + (-1)*x
      auto isNegOf = [](R x, R y)
      { return x->op == RMUL && isC(x->a[0], -1) && x->a[1] == y; };
      if (isNegOf(a, b) || isNegOf(b, a)) { return cst(0); }
      return mk(RADD, {a, b}, nullptr, 0, "", 0);
   }
   R neg(R a) { return mul(cst(-1), a); }
   R sub(R a, R b)
   {
      if (a == b && !sp(a)) { return cst(0); }
      return add(a, neg(b));
   }
   R mul(R a, R b)
   {
      if (sp(a) || sp(b)) { return spOp('*', a, b); }
      if (isC(b) && !isC(a)) { std::swap(a, b); }
      if (isC(a))
      {
         if (isC(b)) { if (ieee) { return rnd(dv(a) * dv(b)); } mpq_class s = a->c * b->c; return cst(s); }
         if (isC(a, 0)) { return a; }
         if (isC(a, 1)) { return b; }
         if (b->op == RMUL && isC(b->a[0]))
         {
            mpq_class s = a->c * b->a[0]->c;
            return mul(cst(s), b->a[1]);
         }
         return mk(RMUL, {a, b}, nullptr, 0, "", 0);
      }
      // pull constants out
      if (a->op == RMUL && isC(a->a[0])) { return mul(a->a[0], mul(a->a[1], b)); }
      if (b->op == RMUL && isC(b->a[0])) { return mul(b->a[0], mul(a, b->a[1])); }
      if (a == b && a->op == RROOT && a->iv == 2) { return a->a[0]; }
      if (a->id > b->id) { std::swap(a, b); }
      return mk(RMUL, {a, b}, nullptr, 0, "", 0);
   }
   R div(R a, R b)
   {
      if (sp(a) || sp(b)) { return spOp('/', a, b); }
      if (isC(b))
      {
         if (b->c == 0)
         {
            if (isC(a) && a->c != 0) { return special(a->c > 0 ? INFINITY : -INFINITY); }
            return special(NAN);
         }
         if (ieee && isC(a)) { return rnd(dv(a) / dv(b)); }
         mpq_class inv = 1 / b->c;
         return mul(cst(inv), a);
      }
      if (a == b) { return cst(1); }
      if (isC(a, 0)) { return a; }
      if (isC(a) && a->c != 1) { return mul(a, div(cst(1), b)); }
      if (a->op == RMUL && isC(a->a[0])) { return mul(a->a[0], div(a->a[1], b)); }
      if (b->op == RMUL && isC(b->a[0]))
      {
         mpq_class inv = 1 / b->a[0]->c;
         return mul(cst(inv), div(a, b->a[1]));
      }
      return mk(RDIV, {a, b}, nullptr, 0, "", 0);
   }
   R root(R a, long q)
   {
      if (sp(a)) { return special(std::pow(a->d, 1.0 / q)); }
      if (isC(a))
      {
         if (a->c == 0) { return a; }
         bool ng = a->c < 0;
         if (ng && q % 2 == 0) { return special(NAN); }
         if (ieee) { return rnd(q == 2 ? std::sqrt(dv(a)) : q == 3 ? std::cbrt(dv(a)) : std::pow(dv(a), 1.0 / q)); }
         mpz_class n = abs(a->c.get_num()), d = a->c.get_den(), rn, rd;
         int en = mpz_root(rn.get_mpz_t(), n.get_mpz_t(), q);
         int ed = mpz_root(rd.get_mpz_t(), d.get_mpz_t(), q);
         if (en && ed) { mpq_class r(ng ? mpz_class(-rn) : rn, rd); r.canonicalize(); return cst(r); }
         if (!ng)
         {
            // n^(1/q)/d^(1/q) = (n d^(q-1))^(1/q) / d; strip perfect powers
            mpz_class m = n, dq;
            mpz_pow_ui(dq.get_mpz_t(), d.get_mpz_t(), q - 1);
            m *= dq;
            mpz_class out = 1;
            for (long p = 2; p < 2000; ++p)
            {
               mpz_class pq;
               mpz_ui_pow_ui(pq.get_mpz_t(), p, q);
               while (m % pq == 0) { m /= pq; out *= p; }
            }
            mpq_class sc(out, d);
            sc.canonicalize();
            if (m != n * dq || d != 1)
            {
               mpq_class mm(m);
               return mul(cst(sc), mk(RROOT, {cst(mm)}, nullptr, q, "", 0));
            }
         }
      }
      if (a->op == RROOT) { return root(a->a[0], q * a->iv); }
      return mk(RROOT, {a}, nullptr, q, "", 0);
   }
   R sqrt(R a) { return root(a, 2); }
   R ipow(R a, long n)
   {
      if (n < 0) { return div(cst(1), ipow(a, -n)); }
      R r = cst(1), b = a;
      while (n)
      {
         if (n & 1) { r = mul(r, b); }
         n >>= 1;
         if (n) { b = mul(b, b); }
      }
      return r;
   }
   R fn(ROp op, R a)
   {
      if (sp(a))
      {
         double x = a->d;
         double r = op == RLOG ? std::log(x) : op == REXP ? std::exp(x) : op == RATAN ? std::atan(x) : op == RTANH ? std::tanh(x) : NAN;
         return std::isfinite(r) ? fromDouble(r) : special(r);
      }
      if (isC(a, 0))
      {
         switch (op)
         {
         case RSIN: case RTAN: case RATAN: case RASIN: case RTANH: return a;
         case RCOS: case REXP: return cst(1);
         case RLOG: return special(-INFINITY);
         default: break;
         }
      }
      if (ieee && isC(a))
      {
         double x = dv(a);
         switch (op)
         {
         case RSIN: return rnd(std::sin(x));
         case RCOS: return rnd(std::cos(x));
         case RTAN: return rnd(std::tan(x));
         case RATAN: return rnd(std::atan(x));
         case RASIN: return rnd(std::asin(x));
         case RACOS: return rnd(std::acos(x));
         case RTANH: return rnd(std::tanh(x));
         case REXP: return rnd(std::exp(x));
         case RLOG: return rnd(std::log(x));
         default: break;
         }
      }
      if (op == RSIN && a->op == RATAN) { return div(a->a[0], root(add(cst(1), mul(a->a[0], a->a[0])), 2)); }
      if (op == RCOS && a->op == RATAN) { return div(cst(1), root(add(cst(1), mul(a->a[0], a->a[0])), 2)); }
      if (op == RTAN && a->op == RATAN) { return a->a[0]; }
      if (op == RLOG && isC(a, 1)) { return cst(0); }
      if (op == RLOG && isC(a) && a->c < 0) { return special(NAN); }
      if (op == RLOG && a->op == REXP) { return a->a[0]; }
      if (op == REXP && a->op == RLOG) { return a->a[0]; }
      return mk(op, {a}, nullptr, 0, "", 0);
   }
   R pow(R a, R b)
   {
      if (ieee && isC(a) && isC(b)) { return rnd(std::pow(dv(a), dv(b))); }
      // an exponent such as 1.0/3 stands for the fraction that it is the double nearest to
      if (ieee && isC(b) && b->c.get_den() > 12)
      {
         const double v = dv(b);
         for (long q = 3; q <= 12; ++q)
         {
            const double n = std::nearbyint(v * q);
            if (std::fabs(n) <= 64 && n / q == v) { b = cst(mpq_class((long)n, q)); break; }
         }
      }
      if (isC(b))
      {
         if (b->c.get_den() == 1 && abs(b->c.get_num()) <= 64)
         {
            return ipow(a, b->c.get_num().get_si());
         }
         if (b->c.get_den() <= 12 && abs(b->c.get_num()) <= 64)
         {
            return ipow(root(a, b->c.get_den().get_si()), b->c.get_num().get_si());
         }
      }
      if (isC(a, 1)) { return a; }
      if (isC(a, 0)) { return cst(0); }
      return fn(REXP, mul(b, fn(RLOG, a)));
   }
   R atan2(R y, R x) { if (ieee && isC(x) && isC(y)) { return rnd(std::atan2(dv(y), dv(x))); } return mk(RATAN2, {y, x}, nullptr, 0, "", 0); }
   R uf(const std::string &name, std::vector<R> args)
   {
      return mk(RUF, std::move(args), nullptr, 0, name, 0);
   }

   // ---------------------------------------------------------------- numeric
   // the fixed interpretation of uninterpreted functions used for numeric
   // evaluation; the native runtime uses the same one (see ufmodel.h)
   std::function<double(const std::string &, const std::vector<double> &)> ufEval;

   double eval(R n, const std::unordered_map<R, double> &env,
               std::unordered_map<R, double> &memo)
   {
      auto it = memo.find(n);
      if (it != memo.end()) { return it->second; }
      // iterative post-order to avoid deep recursion
      std::vector<std::pair<R, size_t>> st{{n, 0}};
      while (!st.empty())
      {
         auto &[x, i] = st.back();
         if (memo.count(x)) { st.pop_back(); continue; }
         if (i < x->a.size()) { R ch = x->a[i++]; if (!memo.count(ch)) { st.push_back({ch, 0}); } continue; }
         double r = 0;
         auto A = [&](int k) { return memo[x->a[k]]; };
         switch (x->op)
         {
         case RC: r = x->c.get_d(); break;
         case RSPECIAL: r = x->d; break;
         case RV: { auto e = env.find(x); r = e == env.end() ? 0.0 : e->second; break; }
         case RADD: r = A(0) + A(1); break;
         case RMUL: r = A(0) * A(1); break;
         case RDIV: r = A(0) / A(1); break;
         case RROOT: r = x->iv == 2 ? std::sqrt(A(0)) : A(0) < 0 && x->iv % 2 ? -std::pow(-A(0), 1.0 / x->iv) : std::pow(A(0), 1.0 / x->iv); break;
         case RLOG: r = std::log(x->name.empty() ? A(0) : std::fabs(A(0))); break;
         case REXP: r = std::exp(A(0)); break;
         case RSIN: r = std::sin(A(0)); break;
         case RCOS: r = std::cos(A(0)); break;
         case RTAN: r = std::tan(A(0)); break;
         case RATAN: r = std::atan(A(0)); break;
         case RASIN: r = std::asin(A(0)); break;
         case RACOS: r = std::acos(A(0)); break;
         case RATAN2: r = std::atan2(A(0), A(1)); break;
         case RTANH: r = std::tanh(A(0)); break;
         case RUF:
         {
            std::vector<double> v;
            for (R y : x->a) { v.push_back(memo[y]); }
            r = ufEval ? ufEval(x->name, v) : 0.0;
            break;
         }
         }
         memo[x] = r;
         st.pop_back();
      }
      return memo[n];
   }

   // --------------------------------------------------------- differentiation
   std::unordered_map<uint64_t, R> dmemo;
   R diff(R n, R v)
   {
      uint64_t key = ((uint64_t)n->id << 32) | (uint32_t)v->id;
      auto it = dmemo.find(key);
      if (it != dmemo.end()) { return it->second; }
      R r = nullptr;
      switch (n->op)
      {
      case RC: case RSPECIAL: r = cst(0); break;
      case RV: r = cst(n == v ? 1 : 0); break;
      case RADD: r = add(diff(n->a[0], v), diff(n->a[1], v)); break;
      case RMUL:
         r = add(mul(diff(n->a[0], v), n->a[1]), mul(n->a[0], diff(n->a[1], v)));
         break;
      case RDIV:
         // a'/b - (a/b) b'/b
         r = div(sub(diff(n->a[0], v), mul(n, diff(n->a[1], v))), n->a[1]);
         break;
      case RROOT:
      {
         R da = diff(n->a[0], v);
         if (isC(da, 0)) { r = da; break; }
         mpq_class iq(1, n->iv);
         r = mul(cst(iq), div(mul(n, da), n->a[0]));
         break;
      }
      case RLOG: r = div(diff(n->a[0], v), n->a[0]); break;
      case REXP: r = mul(n, diff(n->a[0], v)); break;
      case RSIN: r = mul(fn(RCOS, n->a[0]), diff(n->a[0], v)); break;
      case RCOS: r = neg(mul(fn(RSIN, n->a[0]), diff(n->a[0], v))); break;
      case RTAN: r = mul(add(cst(1), mul(n, n)), diff(n->a[0], v)); break;
      case RTANH: r = mul(sub(cst(1), mul(n, n)), diff(n->a[0], v)); break;
      case RATAN: r = div(diff(n->a[0], v), add(cst(1), mul(n->a[0], n->a[0]))); break;
      case RASIN: r = div(diff(n->a[0], v), sqrt(sub(cst(1), mul(n->a[0], n->a[0])))); break;
      case RACOS: r = neg(div(diff(n->a[0], v), sqrt(sub(cst(1), mul(n->a[0], n->a[0]))))); break;
      case RATAN2:
      {
         R y = n->a[0], x = n->a[1];
         r = div(sub(mul(x, diff(y, v)), mul(y, diff(x, v))), add(mul(x, x), mul(y, y)));
         break;
      }
      case RUF:
      {
         r = cst(0);
         for (size_t i = 0; i < n->a.size(); ++i)
         {
            R da = diff(n->a[i], v);
            if (isC(da, 0)) { continue; }
            // derivative tags are kept sorted: mixed partials commute
            std::string nm = n->name;
            std::string tag;
            auto p = nm.find('\'');
            std::string base = p == std::string::npos ? nm : nm.substr(0, p);
            tag = p == std::string::npos ? "" : nm.substr(p + 1);
            tag += (char)('a' + i);
            std::sort(tag.begin(), tag.end());
            r = add(r, mul(uf(base + "'" + tag, n->a), da));
         }
         break;
      }
      }
      dmemo[key] = r;
      return r;
   }
   // substitute variables
   R subst(R n, const std::unordered_map<R, R> &m, std::unordered_map<R, R> &memo)
   {
      auto it = memo.find(n);
      if (it != memo.end()) { return it->second; }
      R r = n;
      auto S = [&](int k) { return subst(n->a[k], m, memo); };
      switch (n->op)
      {
      case RC: case RSPECIAL: break;
      case RV: { auto f = m.find(n); if (f != m.end()) { r = f->second; } break; }
      case RADD: r = add(S(0), S(1)); break;
      case RMUL: r = mul(S(0), S(1)); break;
      case RDIV: r = div(S(0), S(1)); break;
      case RROOT: r = root(S(0), n->iv); break;
      case RATAN2: r = atan2(S(0), S(1)); break;
      case RUF:
      {
         std::vector<R> a;
         for (size_t i = 0; i < n->a.size(); ++i) { a.push_back(S((int)i)); }
         r = uf(n->name, a);
         break;
      }
      default: r = fn(n->op, S(0)); break;
      }
      memo[n] = r;
      return r;
   }

   // ------------------------------------------------------------- normal form
   typedef std::vector<std::pair<int, int>> Mono;  // (atom, exponent), sorted
   struct MonoLess
   {
      // any total order compatible with multiplication (lex on dense exponents)
      bool operator()(const Mono &x, const Mono &y) const
      {
         size_t i = 0, j = 0;
         while (i < x.size() && j < y.size())
         {
            if (x[i].first != y[j].first)
            {
               // smaller atom id is the more significant variable
               return x[i].first > y[j].first;
            }
            if (x[i].second != y[j].second) { return x[i].second < y[j].second; }
            ++i; ++j;
         }
         return i == x.size() && j < y.size();
      }
   };
   typedef std::map<Mono, mpq_class, MonoLess> Poly;
   struct RF { Poly num; std::map<int, int> den; };

   size_t maxTerms = 400000;
   std::vector<R> atoms;                    // atom id -> node
   std::unordered_map<R, int> atomOf;
   std::vector<Poly> factors;               // factor id -> primitive poly
   std::map<std::string, int> factorOf;
   std::unordered_map<R, RF> rfMemo;
   // canonical atoms: key string of normalised argument -> node
   std::map<std::string, R> canon;

   static Mono mmul(const Mono &x, const Mono &y)
   {
      Mono r;
      r.reserve(x.size() + y.size());
      size_t i = 0, j = 0;
      while (i < x.size() || j < y.size())
      {
         if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) { r.push_back(x[i++]); }
         else if (i == x.size() || y[j].first < x[i].first) { r.push_back(y[j++]); }
         else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; }
      }
      return r;
   }
   static bool mdiv(const Mono &x, const Mono &y, Mono &r)
   {
      r.clear();
      size_t i = 0;
      for (auto &p : y)
      {
         while (i < x.size() && x[i].first < p.first) { r.push_back(x[i++]); }
         if (i == x.size() || x[i].first != p.first || x[i].second < p.second) { return false; }
         if (x[i].second > p.second) { r.push_back({p.first, x[i].second - p.second}); }
         ++i;
      }
      while (i < x.size()) { r.push_back(x[i++]); }
      return true;
   }
   static void paddTo(Poly &r, const Mono &m, const mpq_class &c)
   {
      auto ins = r.emplace(m, c);
      if (!ins.second)
      {
         ins.first->second += c;
         if (ins.first->second == 0) { r.erase(ins.first); }
      }
   }
   Poly padd(const Poly &a, const Poly &b)
   {
      Poly r = a;
      for (auto &t : b) { paddTo(r, t.first, t.second); }
      if (r.size() > maxTerms) { throw NormalFormTooLarge(); }
      return r;
   }
   struct MonoHash
   {
      size_t operator()(const Mono &m) const
      {
         size_t h = 1469598103934665603ull;
         for (auto &p : m) { h = (h ^ (size_t)(p.first * 131 + p.second)) * 1099511628211ull; }
         return h;
      }
   };
   Poly pmul(const Poly &a, const Poly &b)
   {
      if (a.size() == 1 && a.begin()->first.empty())
      {
         Poly r = b;
         for (auto &t : r) { t.second *= a.begin()->second; }
         return r;
      }
      if (b.size() == 1 && b.begin()->first.empty()) { return pmul(b, a); }
      std::unordered_map<Mono, mpq_class, MonoHash> acc;
      for (auto &x : a)
      {
         for (auto &y : b)
         {
            Mono m = mmul(x.first, y.first);
            mpq_class c = x.second * y.second;
            auto ins = acc.emplace(std::move(m), c);
            if (!ins.second) { ins.first->second += c; }
         }
         if (acc.size() > maxTerms) { throw NormalFormTooLarge(); }
      }
      Poly r;
      for (auto &t : acc) { if (t.second != 0) { r.emplace(t.first, t.second); } }
      return reduceEager(std::move(r));
   }
   Poly ppow(const Poly &a, int n)
   {
      Poly r;
      r[Mono()] = 1;
      for (int i = 0; i < n; ++i) { r = pmul(r, a); }
      return r;
   }
   // exact division; returns false when not divisible
   bool pdiv(const Poly &a, const Poly &b, Poly &q)
   {
      q.clear();
      Poly rem = a;
      auto lead = std::prev(b.end());
      size_t steps = 0;
      while (!rem.empty())
      {
         auto lr = std::prev(rem.end());
         Mono m;
         if (!mdiv(lr->first, lead->first, m)) { return false; }
         mpq_class c = lr->second / lead->second;
         q.emplace(m, c);
         for (auto &t : b) { mpq_class cc = -c * t.second; paddTo(rem, mmul(m, t.first), cc); }
         if (++steps > 20000) { return false; }
      }
      return true;
   }
   // reduce powers of root atoms whose radicand has a polynomial normal form
   Poly reduceEager(Poly p)
   {
      bool again = true;
      while (again)
      {
         again = false;
         for (auto &t : p)
         {
            for (auto &f : t.first)
            {
               R n = atoms[f.first];
               if (n->op == RROOT && f.second >= n->iv) { again = true; }
               if (n->op == RSIN && f.second >= 2) { again = true; }
               if (again) { break; }
            }
            if (again) { break; }
         }
         if (!again) { break; }
         Poly out;
         bool progress = false;
         for (auto &t : p)
         {
            Mono rest;
            Poly mult;
            mult[Mono()] = t.second;
            bool touched = false;
            for (auto &f : t.first)
            {
               R n = atoms[f.first];
               if (n->op == RROOT && f.second >= n->iv)
               {
                  const RF &arg = rf(n->a[0]);
                  if (arg.den.empty())
                  {
                     int k = f.second / (int)n->iv;
                     int l = f.second % (int)n->iv;
                     if (l) { rest.push_back({f.first, l}); }
                     for (int i = 0; i < k; ++i) { mult = pmulRaw(mult, arg.num); }
                     touched = true;
                     continue;
                  }
               }
               else if (n->op == RSIN && f.second >= 2)
               {
                  int ca = atom(fn(RCOS, n->a[0]));
                  Poly omc2;
                  omc2[Mono()] = 1;
                  omc2[Mono{{ca, 2}}] = -1;
                  if (f.second % 2) { rest.push_back({f.first, 1}); }
                  for (int i = 0; i < f.second / 2; ++i) { mult = pmulRaw(mult, omc2); }
                  touched = true;
                  continue;
               }
               rest.push_back(f);
            }
            progress |= touched;
            for (auto &u : mult) { paddTo(out, mmul(rest, u.first), u.second); }
            if (out.size() > maxTerms) { throw NormalFormTooLarge(); }
         }
         p = std::move(out);
         if (!progress) { break; }
      }
      return p;
   }
   Poly pmulRaw(const Poly &a, const Poly &b)
   {
      Poly r;
      for (auto &x : a)
      {
         for (auto &y : b)
         {
            mpq_class c = x.second * y.second;
            paddTo(r, mmul(x.first, y.first), c);
         }
         if (r.size() > maxTerms) { throw NormalFormTooLarge(); }
      }
      return r;
   }
   int atom(R n)
   {
      auto it = atomOf.find(n);
      if (it != atomOf.end()) { return it->second; }
      int id = (int)atoms.size();
      atoms.push_back(n);
      atomOf[n] = id;
      return id;
   }
   static std::string pkey(const Poly &p)
   {
      std::string s;
      for (auto &t : p)
      {
         s += t.second.get_str(62);
         for (auto &f : t.first) { s += '*'; s += std::to_string(f.first); s += '^'; s += std::to_string(f.second); }
         s += '+';
      }
      return s;
   }
   std::string rfkey(const RF &r)
   {
      std::string s = pkey(r.num) + "/";
      for (auto &f : r.den) { s += std::to_string(f.first) + "^" + std::to_string(f.second) + ","; }
      return s;
   }
   int factorId(const Poly &p)
   {
      std::string k = pkey(p);
      auto it = factorOf.find(k);
      if (it != factorOf.end()) { return it->second; }
      int id = (int)factors.size();
      factors.push_back(p);
      factorOf[k] = id;
      return id;
   }
   // split p = c * monomial * primitive ; primitive leading coefficient 1
   void split(const Poly &p, mpq_class &c, Mono &m, Poly &prim)
   {
      m = p.begin()->first;
      for (auto &t : p)
      {
         Mono g;
         size_t i = 0, j = 0;
         while (i < m.size() && j < t.first.size())
         {
            if (m[i].first < t.first[j].first) { ++i; }
            else if (m[i].first > t.first[j].first) { ++j; }
            else { g.push_back({m[i].first, std::min(m[i].second, t.first[j].second)}); ++i; ++j; }
         }
         m = g;
         if (m.empty()) { break; }
      }
      c = std::prev(p.end())->second;
      prim.clear();
      for (auto &t : p)
      {
         Mono q;
         mdiv(t.first, m, q);
         mpq_class cc = t.second / c;
         prim.emplace(q, cc);
      }
   }
   void cancel(RF &r)
   {
      if (r.num.empty()) { r.den.clear(); return; }
      for (auto it = r.den.begin(); it != r.den.end();)
      {
         const Poly &f = factors[it->first];
         bool single = f.size() == 1;
         if (single || (r.num.size() <= 3000 && f.size() <= 60 && r.num.size() >= f.size()))
         {
            Poly q;
            while (it->second > 0 && pdiv(r.num, f, q)) { r.num = q; --it->second; }
         }
         if (it->second == 0) { it = r.den.erase(it); } else { ++it; }
      }
   }
   Poly denPoly(const std::map<int, int> &d)
   {
      Poly r;
      r[Mono()] = 1;
      for (auto &f : d) { r = pmul(r, ppow(factors[f.first], f.second)); }
      return r;
   }
   RF rfAdd(const RF &a, const RF &b)
   {
      RF r;
      if (a.num.empty()) { return b; }
      if (b.num.empty()) { return a; }
      std::map<int, int> ma, mb;
      r.den = a.den;
      for (auto &f : b.den) { int &e = r.den[f.first]; e = std::max(e, f.second); }
      for (auto &f : r.den)
      {
         auto x = a.den.find(f.first);
         int ea = x == a.den.end() ? 0 : x->second;
         auto y = b.den.find(f.first);
         int eb = y == b.den.end() ? 0 : y->second;
         if (f.second > ea) { ma[f.first] = f.second - ea; }
         if (f.second > eb) { mb[f.first] = f.second - eb; }
      }
      Poly pa = ma.empty() ? a.num : pmul(a.num, denPoly(ma));
      Poly pb = mb.empty() ? b.num : pmul(b.num, denPoly(mb));
      r.num = padd(pa, pb);
      if (!ma.empty() || !mb.empty() || true) { cancel(r); }
      return r;
   }
   RF rfMul(const RF &a, const RF &b)
   {
      RF r;
      if (a.num.empty() || b.num.empty()) { return r; }
      RF x{a.num, b.den}, y{b.num, a.den};
      cancel(x);
      cancel(y);
      r.num = pmul(x.num, y.num);
      r.den = x.den;
      for (auto &f : y.den) { r.den[f.first] += f.second; }
      // reductions of roots may have produced common factors
      for (auto &f : r.den) { if (factors[f.first].size() == 1) { cancel(r); break; } }
      return r;
   }
   RF rfInv(const RF &a)
   {
      if (a.num.empty()) { throw std::runtime_error("division by identically zero expression"); }
      RF r;
      mpq_class c;
      Mono m;
      Poly prim;
      split(a.num, c, m, prim);
      mpq_class ic = 1 / c;
      Poly k;
      k[Mono()] = ic;
      r.num = pmul(k, denPoly(a.den));
      RF extra;
      bool haveExtra = false;
      for (auto &f : m)
      {
         R n = atoms[f.first];
         if (n->op == RROOT)
         {
            // 1/x^(e/q) = x^((q-e)/q) / x : keeps denominators free of roots
            const RF arg = rf(n->a[0]);
            int q = (int)n->iv, e = f.second % q, k = f.second / q + (e ? 1 : 0);
            RF ia = rfInv(arg), t = rfConst(1);
            if (e) { Poly s; s[Mono{{f.first, q - e}}] = 1; t.num = s; }
            for (int i = 0; i < k; ++i) { t = rfMul(t, ia); }
            extra = haveExtra ? rfMul(extra, t) : t;
            haveExtra = true;
            continue;
         }
         Poly s;
         s[Mono{{f.first, 1}}] = 1;
         r.den[factorId(s)] += f.second;
      }
      if (!(prim.size() == 1 && prim.begin()->first.empty())) { r.den[factorId(prim)] += 1; }
      cancel(r);
      if (haveExtra) { return rfMul(r, extra); }
      return r;
   }
   std::unordered_set<R> positive;          // variables known to be > 0
   std::unordered_map<R, std::pair<mpq_class, mpq_class>> box;   // declared ranges of inputs
   bool posAtom(R n, bool strict = false)
   {
      if (strict && n->op == RROOT)
      {
         const RF a = rf(n->a[0]);
         if (!posPoly(a.num, true)) { return false; }
         for (auto &f : a.den) { if (!posPoly(factors[f.first], true)) { return false; } }
         return true;
      }
      switch (n->op)
      {
      case RV: return positive.count(n) > 0;
      case RROOT: case REXP: return true;
      case RC: return n->c > 0;
      default: return false;
      }
   }
   // positive over the declared ranges of the inputs
   bool posBox(const Poly &p)
   {
      mpq_class lo = 0;
      if (p.size() > 64) { return false; }
      for (auto &t : p)
      {
         mpq_class l = 1, h = 1;
         for (auto &f : t.first)
         {
            auto b = box.find(atoms[f.first]);
            if (b == box.end()) { return false; }
            mpq_class al = b->second.first, ah = b->second.second, pl = 1, ph = 1;
            if (al < 0 && f.second % 2 == 0) { mpq_class m = std::max(mpq_class(-al), mpq_class(abs(ah))); al = ah < 0 ? mpq_class(-ah) : mpq_class(0); ah = m; }
            for (int i = 0; i < f.second; ++i) { pl *= al; ph *= ah; }
            mpq_class c[4] = {l * pl, l * ph, h * pl, h * ph};
            l = *std::min_element(c, c + 4);
            h = *std::max_element(c, c + 4);
         }
         lo += t.second > 0 ? mpq_class(l * t.second) : mpq_class(h * t.second);
      }
      return lo > 0;
   }
   bool posPoly(const Poly &p, bool strict = false)
   {
      return posTerms(p, strict) || posBox(p);
   }
   bool posTerms(const Poly &p, bool strict)
   {
      for (auto &t : p)
      {
         if (t.second < 0) { return false; }
         for (auto &f : t.first) { if (f.second % 2 && !posAtom(atoms[f.first], strict)) { return false; } }
      }
      // strictly positive when at least one term has only positive atoms
      for (auto &t : p)
      {
         bool all = true;
         for (auto &f : t.first) { if (!posAtom(atoms[f.first], strict)) { all = false; } }
         if (all) { return true; }
      }
      return false;
   }
   // factors of a primitive polynomial with respect to the known factors
   std::vector<std::pair<Poly, int>> splitKnown(Poly cur)
   {
      std::vector<std::pair<Poly, int>> r;
      auto unit = [](const Poly &p) { return p.size() == 1 && p.begin()->first.empty(); };
      if (unit(cur)) { return r; }
      for (size_t i = 0; i < factors.size(); ++i)
      {
         if (factors[i].size() == 1 || factors[i].size() > cur.size() + 2) { continue; }
         Poly q;
         int e = 0;
         while (!unit(cur) && pdiv(cur, factors[i], q)) { ++e; cur = q; }
         if (e) { r.push_back({factors[i], e}); }
      }
      if (!unit(cur)) { factorId(cur); r.push_back({cur, 1}); }
      return r;
   }
   RF rfConst(const mpq_class &c)
   {
      RF r;
      if (c != 0) { r.num[Mono()] = c; }
      return r;
   }
   RF rfAtom(R n)
   {
      RF r;
      r.num[Mono{{atom(n), 1}}] = 1;
      return r;
   }
   // canonical version of a unary/n-ary atom: arguments with equal normal form
   // share one atom
   R canonAtom(R n)
   {
      std::string k(1, (char)('A' + n->op));
      k += std::to_string(n->iv) + n->name + "(";
      for (R x : n->a) { k += rfkey(rf(x)); k += ";"; }
      auto ins = canon.emplace(k, n);
      return ins.first->second;
   }
   RF logOfFactor(const Poly &p)
   {
      // log|p| as an atom
      if (p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->first[0].second == 1 && p.begin()->second == 1)
      {
         R n = atoms[p.begin()->first[0].first];
         if (n->op == RROOT)
         {
            RF l = logRF(rf(n->a[0]));
            mpq_class iq(1, n->iv);
            return rfMul(rfConst(iq), l);
         }
         if (n->op == REXP) { return rf(n->a[0]); }
         return rfAtom(mk(RLOG, {n}, nullptr, 0, "", 0));
      }
      return rfAtom(mk(RLOG, {polyNode(p)}, nullptr, 0, "abs", 0));
   }
   std::map<std::string, R> polyNodeMemo;
   R polyNode(const Poly &p)
   {
      std::string k = pkey(p);
      auto it = polyNodeMemo.find(k);
      if (it != polyNodeMemo.end()) { return it->second; }
      R s = cst(0);
      for (auto &t : p)
      {
         R m = cst(t.second);
         for (auto &f : t.first) { m = mul(m, ipow(atoms[f.first], f.second)); }
         s = add(s, m);
      }
      polyNodeMemo[k] = s;
      return s;
   }
   RF logInt(mpz_class n)
   {
      RF r;
      n = abs(n);
      for (long p = 2; p < 1000 && n > 1; ++p)
      {
         int e = 0;
         while (n % p == 0) { n /= p; ++e; }
         if (e)
         {
            RF t = rfAtom(mk(RLOG, {cst(p)}, nullptr, 0, "", 0));
            r = rfAdd(r, rfMul(rfConst(e), t));
         }
      }
      if (n > 1) { mpq_class q(n); r = rfAdd(r, rfAtom(mk(RLOG, {cst(q)}, nullptr, 0, "", 0))); }
      return r;
   }
   RF logRF(const RF &a)
   {
      if (a.num.empty()) { throw std::runtime_error("log of identically zero"); }
      mpq_class c;
      Mono m;
      Poly prim;
      split(a.num, c, m, prim);
      RF r = rfAdd(logInt(c.get_num()), rfMul(rfConst(-1), logInt(c.get_den())));
      auto addf = [&](const Poly &f, long e) { r = rfAdd(r, rfMul(rfConst(mpq_class(e)), logOfFactor(f))); };
      for (auto &f : m)
      {
         Poly s;
         s[Mono{{f.first, 1}}] = 1;
         addf(s, f.second);
      }
      if (!(prim.size() == 1 && prim.begin()->first.empty()))
      {
         for (auto &f : splitKnown(prim)) { addf(f.first, f.second); }
      }
      for (auto &f : a.den) { addf(factors[f.first], -f.second); }
      return r;
   }
   const RF &rf(R n)
   {
      auto it = rfMemo.find(n);
      if (it != rfMemo.end()) { return it->second; }
      // post-order
      std::vector<std::pair<R, size_t>> st{{n, 0}};
      while (!st.empty())
      {
         R x = st.back().first;
         size_t &i = st.back().second;
         if (rfMemo.count(x)) { st.pop_back(); continue; }
         if (i < x->a.size())
         {
            R ch = x->a[i++];
            if (!rfMemo.count(ch)) { st.push_back({ch, 0}); }
            continue;
         }
         RF r;
         switch (x->op)
         {
         case RC: r = rfConst(x->c); break;
         case RV: r = rfAtom(x); break;
         case RSPECIAL: throw std::runtime_error("inf/nan in normal form");
         case RADD: r = rfAdd(rfMemo[x->a[0]], rfMemo[x->a[1]]); break;
         case RMUL: r = rfMul(rfMemo[x->a[0]], rfMemo[x->a[1]]); break;
         case RDIV: r = rfMul(rfMemo[x->a[0]], rfInv(rfMemo[x->a[1]])); break;
         case RLOG: r = logRF(rfMemo[x->a[0]]); break;
         case RROOT: r = rootRF(x); break;
         case REXP: r = expRF(x); break;
         case RSIN: case RCOS: r = trigRF(x); break;
         case RTAN:
            r = rfMul(rf(fn(RSIN, x->a[0])), rfInv(rf(fn(RCOS, x->a[0])))); break;
         default: r = rfAtom(canonAtom(x)); break;
         }
         rfMemo[x] = std::move(r);
         st.pop_back();
      }
      return rfMemo[n];
   }
   // sin and cos of a sum of whole multiples of pi times products of atoms, in
   // those of pi times the products (addition theorems)
   RF trigRF(R x)
   {
      const RF a = rfMemo[x->a[0]];
      const mpq_class pi = M_PI;
      bool ok = a.den.empty() && !a.num.empty() && a.num.size() <= 4;
      if (ok)
      {
         for (auto &t : a.num)
         {
            mpq_class k = t.second / pi;
            if (t.first.empty() || k.get_den() != 1 || abs(k) > 16) { ok = false; break; }
         }
      }
      if (!ok) { return rfAtom(canonAtom(x)); }
      RF s = rfConst(0), c = rfConst(1);
      for (auto &t : a.num)
      {
         mpq_class q = t.second / pi;
         const long k = q.get_num().get_si();
         Poly m;
         m[t.first] = pi;
         R arg = polyNode(m);
         const RF s1 = rfAtom(fn(RSIN, arg)), c1 = rfAtom(fn(RCOS, arg));
         for (long i = 0; i < std::labs(k); ++i)
         {
            const RF sk = k < 0 ? rfMul(s1, rfConst(-1)) : s1;
            const RF ns = rfAdd(rfMul(s, c1), rfMul(c, sk));
            c = rfAdd(rfMul(c, c1), rfMul(rfMul(s, sk), rfConst(-1)));
            s = ns;
         }
      }
      return x->op == RSIN ? s : c;
   }
   RF expRF(R x)
   {
      const RF a = rfMemo[x->a[0]];
      if (a.num.empty()) { return rfConst(1); }
      // exp(sum c_i t_i / den) = prod exp(t_i/den)^c_i for integer c_i
      RF r = rfConst(1);
      for (auto &t : a.num)
      {
         RF unit;
         unit.num[t.first] = mpq_class(1, t.second.get_den());
         unit.den = a.den;
         long e = t.second.get_num().get_si();
         std::string k = "EXP(" + rfkey(unit) + ")";
         // exp(n/d log x) = x^(n/d)
         if (a.den.empty() && t.first.size() == 1 && t.first[0].second == 1 && atoms[t.first[0].first]->op == RLOG)
         {
            R lg = atoms[t.first[0].first];
            const RF la = rf(lg->a[0]);
            if (lg->name.empty() || (la.den.empty() && posPoly(la.num)))
            {
               long d = t.second.get_den().get_si();
               RF b = d == 1 ? la : rootOf(la, d, lg->a[0]);
               r = rfMul(r, rfPow(b, e));
               continue;
            }
         }
         R node;
         auto it = canon.find(k);
         if (it != canon.end()) { node = it->second; }
         else
         {
            R arg = polyNode(unit.num);
            if (!a.den.empty()) { arg = div(arg, polyNode(denPoly(a.den))); }
            node = fn(REXP, arg);
            canon[k] = node;
         }
         RF u = node->op == REXP ? rfAtom(node) : rf(node);
         if (e < 0) { u = rfInv(u); e = -e; }
         for (long i = 0; i < e; ++i) { r = rfMul(r, u); }
      }
      return r;
   }
   RF rootAtom(R arg, long q)
   {
      // canonical root atom of an expression that is not split any further
      const RF a = rf(arg);
      std::string k = "ROOT" + std::to_string(q) + "(" + rfkey(a) + ")";
      auto it = canon.find(k);
      if (it != canon.end()) { return rfAtom(it->second); }
      R n = mk(RROOT, {arg}, nullptr, q, "", 0);
      canon[k] = n;
      return rfAtom(n);
   }
   RF rfPow(const RF &a, long e)
   {
      RF b = e < 0 ? rfInv(a) : a, r = rfConst(1);
      for (long i = 0; i < std::labs(e); ++i) { r = rfMul(r, b); }
      return r;
   }
   RF rootInt(mpz_class n, long q)
   {
      RF r = rfConst(1);
      for (long p = 2; p < 1000 && n > 1; ++p)
      {
         long e = 0;
         while (n % p == 0) { n /= p; ++e; }
         if (e / q) { mpz_class k; mpz_ui_pow_ui(k.get_mpz_t(), p, e / q); r = rfMul(r, rfConst(mpq_class(k))); }
         if (e % q) { r = rfMul(r, rfPow(rootAtom(cst(p), q), e % q)); }
      }
      if (n > 1)
      {
         mpz_class t;
         if (mpz_root(t.get_mpz_t(), n.get_mpz_t(), q)) { r = rfMul(r, rfConst(mpq_class(t))); }
         else { r = rfMul(r, rootAtom(cst(mpq_class(n)), q)); }
      }
      return r;
   }
   // x^(1/q) with every factor known to be positive taken out of the radicand
   RF rootRF(R x)
   {
      const RF a = rfMemo[x->a[0]];
      return rootOf(a, x->iv, x->a[0]);
   }
   RF rootOf(const RF &a, long q, R orig)
   {
      if (a.num.empty()) { return rfConst(0); }
      mpq_class c;
      Mono m;
      Poly prim;
      split(a.num, c, m, prim);
      RF r = rfConst(1), left = rfConst(1);
      bool haveLeft = false;
      if (c < 0) { left = rfConst(-1); haveLeft = true; c = -c; }
      {
         mpz_class n = c.get_num(), d = c.get_den(), dp;
         mpz_pow_ui(dp.get_mpz_t(), d.get_mpz_t(), q - 1);
         r = rfMul(rootInt(n * dp, q), rfConst(mpq_class(1, d)));
      }
      auto put = [&](const Poly &f, long e) {
         RF fr;
         fr.num = f;
         bool sole = f.size() == 1 && f.begin()->first.size() == 1 && f.begin()->first[0].second == 1 && f.begin()->second == 1;
         R sa = sole ? atoms[f.begin()->first[0].first] : nullptr;
         if (sa && sa->op == RROOT && posPoly(rf(sa->a[0]).num) && rf(sa->a[0]).den.empty())
         {
            // root of a root
            long g = std::gcd(std::labs(e), q * sa->iv), Q = q * sa->iv / g;
            r = rfMul(r, rfPow(Q == 1 ? rf(sa->a[0]) : rootAtom(sa->a[0], Q), e / g));
         }
         else if (posPoly(f))
         {
            long k = e >= 0 ? e / q : -((-e + q - 1) / q), rem = e - k * q;
            if (k) { r = rfMul(r, rfPow(fr, k)); }
            if (rem)
            {
               RF base;
               bool single = f.size() == 1 && f.begin()->first.size() == 1 && f.begin()->first[0].second == 1 && f.begin()->second == 1;
               R at = single ? atoms[f.begin()->first[0].first] : nullptr;
               if (at && at->op == REXP) { mpq_class iq(1, q); base = rf(fn(REXP, mul(cst(iq), at->a[0]))); }
               else { base = rootAtom(at ? at : polyNode(f), q); }
               r = rfMul(r, rfPow(base, rem));
            }
         }
         else
         {
            // an even power of unknown sign may only leave through |.|: keep it
            left = rfMul(left, rfPow(fr, e));
            haveLeft = true;
         }
      };
      for (auto &f : m)
      {
         Poly s;
         s[Mono{{f.first, 1}}] = 1;
         put(s, f.second);
      }
      for (auto &f : splitKnown(prim)) { put(f.first, f.second); }
      for (auto &f : a.den) { put(factors[f.first], -f.second); }
      if (haveLeft)
      {
         R arg = polyNode(left.num);
         if (!left.den.empty()) { arg = div(arg, polyNode(denPoly(left.den))); }
         (void)orig;
         r = rfMul(r, rootAtom(arg, q));
      }
      return r;
   }
   // nodes reachable from n
   void reachable(R n, std::unordered_set<R> &seen)
   {
      std::vector<R> st{n};
      while (!st.empty())
      {
         R x = st.back();
         st.pop_back();
         if (!seen.insert(x).second) { continue; }
         for (R c : x->a) { st.push_back(c); }
      }
   }
   // x and y with every sum they share replaced by a variable of its own: equal
   // for all values of those variables implies equal
   bool abstractSums(R x, R y, R &xs, R &ys)
   {
      std::unordered_set<R> sx, sy;
      reachable(x, sx);
      reachable(y, sy);
      if (sx.size() + sy.size() < 80) { return false; }
      std::unordered_map<R, R> memo;
      const std::unordered_map<R, R> none;
      for (R n : sx) { if (n->op == RADD && sy.count(n)) { memo[n] = var("cut!" + std::to_string(n->id)); } }
      if (memo.empty()) { return false; }
      xs = subst(x, none, memo);
      ys = subst(y, none, memo);
      return true;
   }
   // exp(t/a) and exp(t/b) as powers of exp(t/lcm(a, b))
   Poly unifyExp(const Poly &p)
   {
      std::map<std::string, std::map<int, mpq_class>> groups;
      std::unordered_set<int> seen;
      for (auto &t : p)
      {
         for (auto &f : t.first)
         {
            R a = atoms[f.first];
            if (a->op != REXP || !seen.insert(f.first).second) { continue; }
            RF r = rf(a->a[0]);
            if (r.num.size() != 1) { continue; }
            mpq_class c = r.num.begin()->second;
            r.num.begin()->second = 1;
            groups[rfkey(r)][f.first] = c;
         }
      }
      std::map<int, std::pair<int, long>> to;   // atom -> base atom, exponent
      for (auto &g : groups)
      {
         if (g.second.size() < 2) { continue; }
         mpz_class l = 1;
         bool pos = true;
         for (auto &m : g.second) { l = lcm(l, mpz_class(m.second.get_den())); pos &= m.second > 0; }
         if (!pos || l > 100000) { continue; }
         RF unit = rf(atoms[g.second.begin()->first]->a[0]);
         unit.num.begin()->second = mpq_class(1, l.get_si());
         R arg = polyNode(unit.num);
         if (!unit.den.empty()) { arg = div(arg, polyNode(denPoly(unit.den))); }
         auto ins = canon.emplace("EXP(" + rfkey(unit) + ")", fn(REXP, arg));
         if (ins.first->second->op != REXP) { continue; }
         int base = atom(ins.first->second);
         for (auto &m : g.second) { mpq_class k = m.second * l; to[m.first] = {base, k.get_num().get_si()}; }
      }
      if (to.empty()) { return p; }
      Poly out;
      for (auto &t : p)
      {
         Mono m, add;
         for (auto &f : t.first)
         {
            auto it = to.find(f.first);
            if (it == to.end()) { m.push_back(f); }
            else { add = mmul(add, Mono{{it->second.first, (int)(f.second * it->second.second)}}); }
         }
         paddTo(out, mmul(m, add), t.second);
      }
      return out;
   }
   // Final zero test.  Returns the reduced numerator of n (empty == zero).
   // a polynomial that is zero where n is; what n's numerator was multiplied
   // with on the way (denominators, hence non-zero) is added to scaled
   typedef std::vector<std::pair<Poly, int>> Scaled;
   Poly zeroPoly(R n, Scaled *scaled = nullptr) { return unifyExp(rootPoly(n, scaled)); }
   Poly rootPoly(R n, Scaled *scaled)
   {
      Poly p = rf(n).num;
      for (int iter = 0; iter < 50; ++iter)
      {
         p = reduceEager(std::move(p));
         if (p.empty()) { return p; }
         // find the root atom with the highest id that has exponent >= q and a
         // rational (non-polynomial) radicand
         int best = -1;
         for (auto &t : p)
         {
            for (auto &f : t.first)
            {
               R a = atoms[f.first];
               if (a->op == RROOT && f.second >= a->iv && f.first > best) { best = f.first; }
            }
         }
         if (best < 0) { return p; }
         const RF arg = rf(atoms[best]->a[0]);
         Poly den = denPoly(arg.den);
         long q = atoms[best]->iv;
         int maxk = 0;
         for (auto &t : p) { for (auto &f : t.first) { if (f.first == best) { maxk = std::max(maxk, f.second / (int)q); } } }
         std::vector<Poly> np(maxk + 1), dp(maxk + 1);
         for (int k = 0; k <= maxk; ++k) { np[k] = ppow(arg.num, k); dp[k] = ppow(den, k); }
         Poly out;
         std::vector<Poly> byk(maxk + 1);
         for (auto &t : p)
         {
            Mono rest;
            int k = 0;
            for (auto &f : t.first)
            {
               if (f.first == best)
               {
                  k = f.second / (int)q;
                  if (f.second % q) { rest.push_back({f.first, f.second % (int)q}); }
               }
               else { rest.push_back(f); }
            }
            paddTo(byk[k], rest, t.second);
         }
         for (int k = 0; k <= maxk; ++k)
         {
            if (byk[k].empty()) { continue; }
            out = padd(out, pmul(pmul(byk[k], np[k]), dp[maxk - k]));
         }
         if (scaled && maxk) { scaled->push_back({den, maxk}); }
         p = std::move(out);
      }
      return p;
   }

   // ---------------------------------------------------------------------- z3
   std::unordered_map<R, z3::expr *> zmemo;
   // for each auxiliary constant (by z3 ast id): defining axioms and node
   struct Aux { R node; std::vector<z3::expr> ax; };
   std::unordered_map<unsigned, Aux> aux;
   std::unordered_map<unsigned, R> varOfConst;  // z3 const decl -> RV node

   z3::expr qval(const mpq_class &c) { return z.real_val(c.get_str().c_str()); }
   z3::expr toZ(R n)
   {
      auto it = zmemo.find(n);
      if (it != zmemo.end()) { return *it->second; }
      std::vector<std::pair<R, size_t>> st{{n, 0}};
      while (!st.empty())
      {
         R x = st.back().first;
         size_t &i = st.back().second;
         if (zmemo.count(x)) { st.pop_back(); continue; }
         if (i < x->a.size())
         {
            R ch = x->a[i++];
            if (!zmemo.count(ch)) { st.push_back({ch, 0}); }
            continue;
         }
         z3::expr e(z);
         auto A = [&](int k) -> z3::expr & { return *zmemo[x->a[k]]; };
         auto fresh = [&](const char *p) {
            z3::expr c = z.real_const((std::string(p) + "!" + std::to_string(x->id)).c_str());
            aux[c.id()].node = x;
            return c;
         };
         switch (x->op)
         {
         case RC: e = qval(x->c); break;
         case RSPECIAL: e = fresh("special"); break;
         case RV: e = z.real_const(x->name.c_str()); varOfConst[e.id()] = x; break;
         case RADD: e = A(0) + A(1); break;
         case RMUL: e = A(0) * A(1); break;
         case RDIV:
            e = fresh("div");
            aux[e.id()].ax = {e * A(1) == A(0), A(1) != 0};
            break;
         case RROOT:
         {
            e = fresh("root");
            z3::expr p = e;
            for (long k = 1; k < x->iv; ++k) { p = p * e; }
            aux[e.id()].ax = {p == A(0), e >= 0, A(0) >= 0};
            break;
         }
         case RLOG:
            e = fresh("log");
            if (!x->name.empty()) { break; }
            aux[e.id()].ax = {A(0) > 0, z3::implies(A(0) > 1, e > 0), z3::implies(A(0) < 1, e < 0),
                              z3::implies(A(0) == 1, e == 0), e <= A(0) - 1};
            break;
         case REXP: e = fresh("exp"); aux[e.id()].ax = {e > 0, e >= A(0) + 1, z3::implies(A(0) == 0, e == 1), z3::implies(A(0) < 0, e < 1)}; break;
         case RSIN: case RCOS:
         {
            e = fresh(x->op == RSIN ? "sin" : "cos");
            R o = fn(x->op == RSIN ? RCOS : RSIN, x->a[0]);
            z3::expr oz = z.real_const((std::string(x->op == RSIN ? "cos" : "sin") + "!" + std::to_string(o->id)).c_str());
            aux[e.id()].ax = {e * e + oz * oz == 1, e <= 1, e >= -1};
            break;
         }
         case RTANH: e = fresh("tanh"); aux[e.id()].ax = {e < 1, e > -1}; break;
         default: e = fresh("f"); break;
         }
         zmemo[x] = new z3::expr(e);
         st.pop_back();
      }
      return *zmemo[n];
   }
   // collect the defining axioms of every auxiliary constant in es
   void collectAxioms(const std::vector<z3::expr> &es, std::vector<z3::expr> &out, std::set<R> *vs = nullptr)
   {
      std::unordered_set<unsigned> seen;
      std::vector<z3::expr> work = es;
      while (!work.empty())
      {
         z3::expr e = work.back();
         work.pop_back();
         if (!seen.insert(e.id()).second) { continue; }
         if (e.is_app())
         {
            if (e.num_args() == 0)
            {
               auto f = aux.find(e.id());
               if (f != aux.end())
               {
                  for (auto &x : f->second.ax) { out.push_back(x); work.push_back(x); }
                  if (vs) { collectVars(f->second.node, *vs); }
               }
               auto v = varOfConst.find(e.id());
               if (v != varOfConst.end() && vs) { vs->insert(v->second); }
            }
            for (unsigned i = 0; i < e.num_args(); ++i) { work.push_back(e.arg(i)); }
         }
      }
   }
   void collectVars(R n, std::set<R> &vs)
   {
      std::unordered_set<R> seen;
      std::vector<R> w{n};
      while (!w.empty())
      {
         R x = w.back();
         w.pop_back();
         if (!seen.insert(x).second) { continue; }
         if (x->op == RV) { vs.insert(x); }
         for (R y : x->a) { w.push_back(y); }
      }
   }
   std::string str(R n, int depth = 6)
   {
      switch (n->op)
      {
      case RC: return n->c.get_str();
      case RV: return n->name;
      case RSPECIAL: return std::to_string(n->d);
      default: break;
      }
      if (depth == 0) { return "..."; }
      static const char *nm[] = {"", "", "+", "*", "/", "root", "log", "exp", "sin", "cos", "tan", "atan", "asin", "acos", "atan2", "tanh", "uf", ""};
      std::string s = "(" + std::string(n->op == RUF ? n->name : nm[n->op]);
      if (n->op == RROOT) { s += std::to_string(n->iv); }
      for (R x : n->a) { s += " " + str(x, depth - 1); }
      return s + ")";
   }
};
