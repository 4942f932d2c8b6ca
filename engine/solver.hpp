#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sstream>
// Query layer: slicing, caching, z3 calls, numeric evaluation of path
// conditions, witness sampling.
#pragma once
#include "core.hpp"

enum Res { UNSAT, SAT, UNKNOWN };

struct Solver
{
   z3::context z;
   RDag dag;
   std::vector<z3::expr> ex;   // expression table
   std::unordered_map<unsigned, int> exIdx;
   unsigned timeoutMs = 10000, branchTimeoutMs = 1200;
   uint64_t seed = 1;
   // statistics
   long nq = 0, nunsat = 0, nsat = 0, nunk = 0, nnorm = 0, ncache = 0, nsample = 0, ncross = 0, ncrossOk = 0;
   double tsolve = 0, tnorm = 0;
   std::unordered_map<std::string, Res> cache;
   std::shared_ptr<z3::model> lastModel;
   double maxq = 0;

   Solver() : dag(z)
   {
      dag.ufEval = [](const std::string &n, const std::vector<double> &v) { return verif_uf_eval(n, (int)v.size(), v.data()); };
   }
   int idx(const z3::expr &e)
   {
      auto it = exIdx.find(e.id());
      if (it != exIdx.end()) { return it->second; }
      ex.push_back(e);
      int i = (int)ex.size() - 1;
      exIdx[e.id()] = i;
      return i;
   }
   uint64_t rnd()
   {
      seed += 0x9e3779b97f4a7c15ull;
      uint64_t x = seed;
      x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
      return x ^ (x >> 31);
   }
   bool inProcess = false;   // bit-vector/FP queries honour their limit
   bool coarse = false;
   double rndIn(double lo, double hi)
   {
      double t = (double)(rnd() % 4096) / 4096.0;
      double v = lo + (hi - lo) * t;
      if (coarse || rnd() % 2)
      {
         // values with few significant bits replay without rounding
         double g = std::ldexp(1.0, -(int)(rnd() % (coarse ? 4 : 10)));
         double u = std::round(v / g) * g;
         if (u > lo && u < hi) { return u; }
      }
      return v;
   }

   // ---- constants of an expression
   std::unordered_map<unsigned, std::vector<unsigned>> constMemo;
   const std::vector<unsigned> &constsOf(const z3::expr &e0)
   {
      auto it = constMemo.find(e0.id());
      if (it != constMemo.end()) { return it->second; }
      std::set<unsigned> out;
      std::unordered_set<unsigned> seen;
      std::vector<z3::expr> w{e0};
      while (!w.empty())
      {
         z3::expr e = w.back();
         w.pop_back();
         if (!e.is_app() || !seen.insert(e.id()).second) { continue; }
         if (e.num_args() == 0)
         {
            if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED)
            {
               out.insert(e.id());
               auto f = dag.aux.find(e.id());
               if (f != dag.aux.end()) { for (auto &x : f->second.ax) { w.push_back(x); } }
            }
         }
         for (unsigned i = 0; i < e.num_args(); ++i) { w.push_back(e.arg(i)); }
      }
      ex.push_back(e0);  // keep alive so that ids stay unique
      return constMemo[e0.id()] = std::vector<unsigned>(out.begin(), out.end());
   }
   bool hasReal(const z3::expr &e0, bool &other)
   {
      bool real = false;
      other = false;
      std::unordered_set<unsigned> seen;
      std::vector<z3::expr> w{e0};
      while (!w.empty())
      {
         z3::expr e = w.back();
         w.pop_back();
         if (!e.is_app() || !seen.insert(e.id()).second) { continue; }
         if (e.is_real()) { real = true; }
         else if (e.is_bv() || e.is_fpa()) { other = true; }
         for (unsigned i = 0; i < e.num_args(); ++i) { w.push_back(e.arg(i)); }
      }
      return real;
   }
   // the members of pc that share constants (transitively) with e
   std::vector<z3::expr> slice(const std::vector<int> &pc, const z3::expr &e)
   {
      std::vector<z3::expr> out;
      std::set<unsigned> cs;
      for (unsigned c : constsOf(e)) { cs.insert(c); }
      std::vector<bool> used(pc.size(), false);
      bool ch = true;
      while (ch)
      {
         ch = false;
         for (size_t i = 0; i < pc.size(); ++i)
         {
            if (used[i]) { continue; }
            z3::expr p = ex[pc[i]];
            const auto &k = constsOf(p);
            bool hit = false;
            for (unsigned c : k) { if (cs.count(c)) { hit = true; break; } }
            if (!hit) { continue; }
            used[i] = true;
            ch = true;
            for (unsigned c : k) { cs.insert(c); }
            out.push_back(p);
         }
      }
      return out;
   }
   // constants of e without those of the axioms behind auxiliary constants
   std::unordered_map<unsigned, std::vector<unsigned>> surfMemo;
   const std::vector<unsigned> &surfaceOf(const z3::expr &e0)
   {
      auto it = surfMemo.find(e0.id());
      if (it != surfMemo.end()) { return it->second; }
      std::unordered_set<unsigned> seen, out;
      std::vector<z3::expr> w{e0};
      while (!w.empty())
      {
         z3::expr e = w.back();
         w.pop_back();
         if (!e.is_app() || !seen.insert(e.id()).second) { continue; }
         if (e.num_args() == 0 && e.decl().decl_kind() == Z3_OP_UNINTERPRETED) { out.insert(e.id()); }
         for (unsigned i = 0; i < e.num_args(); ++i) { w.push_back(e.arg(i)); }
      }
      ex.push_back(e0);
      return surfMemo[e0.id()] = std::vector<unsigned>(out.begin(), out.end());
   }
   // Weakened queries first: auxiliary terms (quotients, roots, logs) as free
   // constants.  UNSAT carries over to the full query.
   bool quickUnsat(const std::vector<int> &pc, const z3::expr &e)
   {
      bool other;
      if (!hasReal(e, other) || other) { return false; }
      size_t last = (size_t)-1;
      for (int rounds = 1; rounds <= 3; ++rounds)
      {
         std::set<unsigned> cs;
         for (unsigned c : surfaceOf(e)) { cs.insert(c); }
         std::vector<z3::expr> as{e};
         std::vector<bool> used(pc.size(), false);
         bool ch = true;
         for (int r = 0; r < (rounds == 3 ? 1000 : rounds) && ch; ++r)
         {
            ch = false;
            std::set<unsigned> add;
            for (size_t i = 0; i < pc.size(); ++i)
            {
               if (used[i]) { continue; }
               z3::expr p = ex[pc[i]];
               if (!isRealCond(p)) { used[i] = true; continue; }
               const auto &k = surfaceOf(p);
               bool hit = false;
               for (unsigned c : k) { if (cs.count(c)) { hit = true; break; } }
               if (!hit) { continue; }
               used[i] = true;
               ch = true;
               for (unsigned c : k) { add.insert(c); }
               as.push_back(p);
            }
            cs.insert(add.begin(), add.end());
         }
         if (as.size() == last) { continue; }
         last = as.size();
         Res r = rawCheck(as, rounds == 1 ? 300 : 800, false, false);
         if (r == UNSAT) { return true; }
      }
      return false;
   }
   // nlsat does not always honour its time limit: every query runs in a child
   // process that is killed when the limit has passed
   struct Child { pid_t pid; int fd; std::string in; bool done = false; };
   Child startChild(const std::vector<z3::expr> &all, unsigned tmo, int strategy)
   {
      int fd[2];
      Child c{-1, -1};
      if (pipe(fd)) { return c; }
      pid_t pid = fork();
      if (pid == 0)
      {
         close(fd[0]);
         std::string out = "?";
         try
         {
            z3::solver s = strategy == 0 ? z3::solver(z, "QF_NRA") : strategy == 1 ? z3::solver(z, z3::solver::simple()) : z3::solver(z);
            z3::params p(z);
            p.set("timeout", tmo);
            s.set(p);
            for (auto &a : all) { s.add(a); }
            z3::check_result cr = s.check();
            if (cr == z3::unsat) { out = "U"; }
            else if (cr == z3::sat)
            {
               out = "S";
               z3::model m = s.get_model();
               for (unsigned i = 0; i < m.num_consts(); ++i)
               {
                  z3::func_decl d = m.get_const_decl(i);
                  z3::expr v = m.get_const_interp(d);
                  std::string t;
                  if (v.is_real())
                  {
                     if (v.is_algebraic()) { t = Z3_get_numeral_decimal_string(z, v, 25); if (!t.empty() && t.back() == '?') { t.pop_back(); } }
                     else { t = Z3_get_numeral_string(z, v); }
                     t = "r " + t;
                  }
                  else if (v.is_bv()) { t = "b" + std::to_string(v.get_sort().bv_size()) + " " + Z3_get_numeral_string(z, v); }
                  else if (v.is_bool()) { t = std::string("o ") + (v.is_true() ? "1" : "0"); }
                  else { continue; }
                  out += "\n" + t + " " + d.name().str();
               }
            }
         }
         catch (...) { out = "?"; }
         size_t o = 0;
         while (o < out.size()) { ssize_t k = write(fd[1], out.data() + o, out.size() - o); if (k <= 0) { break; } o += k; }
         _exit(0);
      }
      close(fd[1]);
      if (pid < 0) { close(fd[0]); return c; }
      c.pid = pid;
      c.fd = fd[0];
      return c;
   }
   Res forkedCheck(const std::vector<z3::expr> &all, unsigned tmo, bool nra, bool keepModel)
   {
      std::vector<Child> ch;
      auto t0 = std::chrono::steady_clock::now();
      auto ms = [&]() { return (long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); };
      long limit = (long)tmo + tmo / 5 + 300;
      ch.push_back(startChild(all, tmo, nra ? 0 : 2));
      std::string in = "?";
      bool second = !nra;
      while (true)
      {
         long now = ms();
         if (now >= limit) { break; }
         if (!second && (now >= 250 || ch[0].done)) { second = true; ch.push_back(startChild(all, tmo, 1)); }
         std::vector<struct pollfd> pf;
         std::vector<size_t> who;
         for (size_t i = 0; i < ch.size(); ++i) { if (!ch[i].done && ch[i].fd >= 0) { pf.push_back({ch[i].fd, POLLIN, 0}); who.push_back(i); } }
         if (pf.empty()) { if (second) { break; } continue; }
         int k = poll(pf.data(), pf.size(), (int)(second ? limit - now : std::min(limit - now, 250 - now)));
         if (k < 0 && errno != EINTR) { break; }
         if (k <= 0) { continue; }
         bool got = false;
         for (size_t i = 0; i < pf.size(); ++i)
         {
            if (!pf[i].revents) { continue; }
            Child &c = ch[who[i]];
            char buf[65536];
            ssize_t n = read(c.fd, buf, sizeof buf);
            if (n > 0) { c.in.append(buf, n); continue; }
            c.done = true;
            if (!c.in.empty() && c.in[0] != '?') { in = c.in; got = true; break; }
         }
         if (got) { break; }
      }
      for (auto &c : ch) { if (c.fd >= 0) { close(c.fd); } if (c.pid > 0) { kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); } }
      if (in.empty() || in[0] == '?') { return UNKNOWN; }
      if (in[0] == 'U') { return UNSAT; }
      if (keepModel)
      {
         auto m = std::make_shared<z3::model>(z);
         std::istringstream is(in.substr(1));
         std::string line;
         while (std::getline(is, line))
         {
            if (line.empty()) { continue; }
            size_t a = line.find(' '), b = line.find(' ', a + 1);
            std::string ty = line.substr(0, a), val = line.substr(a + 1, b - a - 1), nm = line.substr(b + 1);
            z3::sort so = ty == "r" ? z.real_sort() : ty == "o" ? z.bool_sort() : z.bv_sort(std::stoul(ty.substr(1)));
            z3::func_decl d = z.function(nm.c_str(), 0, nullptr, so);
            z3::expr v = ty == "r" ? z.real_val(val.c_str()) : ty == "o" ? z.bool_val(val == "1") : z.bv_val(val.c_str(), std::stoul(ty.substr(1)));
            m->add_const_interp(d, v);
         }
         lastModel = m;
      }
      return SAT;
   }
   Res rawCheck(const std::vector<z3::expr> &as, unsigned tmo, bool wantModel, bool axioms = true)
   {
      std::vector<z3::expr> all = as, ax;
      if (axioms) { dag.collectAxioms(as, ax); }
      std::set<unsigned> ids;
      for (auto &a : all) { ids.insert(a.id()); }
      for (auto &a : ax) { if (ids.insert(a.id()).second) { all.push_back(a); } }
      std::string key = axioms ? "" : "w";
      for (unsigned i : ids) { key += std::to_string(i) + ","; }
      if (!wantModel)
      {
         auto c = cache.find(key);
         if (c != cache.end()) { ++ncache; return c->second; }
      }
      bool real = false, other = false;
      for (auto &a : all) { bool o; real |= hasReal(a, o); other |= o; }
      auto t0 = std::chrono::steady_clock::now();
      Res r = UNKNOWN;
      if (inProcess)
      {
         try
         {
            z3::solver s(z);
            z3::params p(z);
            p.set("timeout", tmo);
            s.set(p);
            for (auto &a : all) { s.add(a); }
            z3::check_result cr = s.check();
            r = cr == z3::unsat ? UNSAT : cr == z3::sat ? SAT : UNKNOWN;
            if (r == SAT && axioms) { lastModel = std::make_shared<z3::model>(s.get_model()); }
         }
         catch (z3::exception &) { r = UNKNOWN; }
      }
      else { r = forkedCheck(all, tmo, real && !other, axioms); }
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      tsolve += dt;
      maxq = std::max(maxq, dt);
      ++nq;
      (r == UNSAT ? nunsat : r == SAT ? nsat : nunk)++;
      if (r != UNKNOWN) { cache[key] = r; }
      for (auto &a : all) { ex.push_back(a); }
      return r;
   }
   Res check(const std::vector<int> &pc, const z3::expr &c, unsigned tmo, bool wantModel = false)
   {
      z3::expr e = c.simplify();
      if (e.is_false()) { return UNSAT; }
      std::vector<z3::expr> as;
      if (wantModel) { for (int i : pc) { as.push_back(ex[i]); } }
      else { as = slice(pc, e); }
      if (!wantModel && quickUnsat(pc, e)) { return UNSAT; }
      as.push_back(e);
      return rawCheck(as, tmo, wantModel);
   }

   // ---- numeric evaluation of conditions. nullopt: unclear
   struct Env { const std::unordered_map<R, double> *env; std::unordered_map<R, double> memo; };
   std::optional<double> evR(const z3::expr &e, Env &env)
   {
      if (e.is_numeral()) { return mpq_class(Z3_get_numeral_string(z, e)).get_d(); }
      if (!e.is_app()) { return std::nullopt; }
      if (e.num_args() == 0)
      {
         auto v = dag.varOfConst.find(e.id());
         if (v != dag.varOfConst.end()) { return dag.eval(v->second, *env.env, env.memo); }
         auto a = dag.aux.find(e.id());
         if (a != dag.aux.end()) { return dag.eval(a->second.node, *env.env, env.memo); }
         return std::nullopt;
      }
      auto k = e.decl().decl_kind();
      std::vector<double> v;
      if (k == Z3_OP_ITE)
      {
         auto c = evB(e.arg(0), env);
         if (!c) { return std::nullopt; }
         return evR(e.arg(*c ? 1 : 2), env);
      }
      for (unsigned i = 0; i < e.num_args(); ++i)
      {
         auto x = evR(e.arg(i), env);
         if (!x) { return x; }
         v.push_back(*x);
      }
      double r = v[0];
      switch (k)
      {
      case Z3_OP_ADD: for (size_t i = 1; i < v.size(); ++i) { r += v[i]; } return r;
      case Z3_OP_SUB: for (size_t i = 1; i < v.size(); ++i) { r -= v[i]; } return r;
      case Z3_OP_MUL: for (size_t i = 1; i < v.size(); ++i) { r *= v[i]; } return r;
      case Z3_OP_DIV: return v[0] / v[1];
      case Z3_OP_UMINUS: return -v[0];
      case Z3_OP_POWER: return std::pow(v[0], v[1]);
      case Z3_OP_TO_REAL: return r;
      default: return std::nullopt;
      }
   }
   std::optional<bool> evB(const z3::expr &e, Env &env)
   {
      if (e.is_true()) { return true; }
      if (e.is_false()) { return false; }
      if (!e.is_app()) { return std::nullopt; }
      auto k = e.decl().decl_kind();
      switch (k)
      {
      case Z3_OP_NOT: { auto a = evB(e.arg(0), env); if (!a) { return a; } return !*a; }
      case Z3_OP_AND: case Z3_OP_OR:
      {
         bool unclear = false;
         for (unsigned i = 0; i < e.num_args(); ++i)
         {
            auto a = evB(e.arg(i), env);
            if (!a) { unclear = true; continue; }
            if (k == Z3_OP_AND && !*a) { return false; }
            if (k == Z3_OP_OR && *a) { return true; }
         }
         if (unclear) { return std::nullopt; }
         return k == Z3_OP_AND;
      }
      case Z3_OP_IMPLIES:
      {
         auto a = evB(e.arg(0), env), b = evB(e.arg(1), env);
         if (a && !*a) { return true; }
         if (b && *b) { return true; }
         if (a && b) { return false; }
         return std::nullopt;
      }
      case Z3_OP_ITE:
      {
         auto c = evB(e.arg(0), env);
         if (!c) { return c; }
         return evB(e.arg(*c ? 1 : 2), env);
      }
      case Z3_OP_LE: case Z3_OP_GE: case Z3_OP_LT: case Z3_OP_GT: case Z3_OP_EQ: case Z3_OP_DISTINCT:
      {
         if (e.num_args() != 2) { return std::nullopt; }
         if (e.arg(0).is_bool())
         {
            auto a = evB(e.arg(0), env), b = evB(e.arg(1), env);
            if (!a || !b) { return std::nullopt; }
            return (*a == *b) == (k == Z3_OP_EQ);
         }
         if (!e.arg(0).is_real()) { return std::nullopt; }
         auto a = evR(e.arg(0), env), b = evR(e.arg(1), env);
         if (!a || !b || std::isnan(*a) || std::isnan(*b)) { return std::nullopt; }
         double d = *a - *b;
         if (std::fabs(d) <= 1e-9 * (std::fabs(*a) + std::fabs(*b)) + 1e-14) { return std::nullopt; }
         switch (k)
         {
         case Z3_OP_LE: case Z3_OP_LT: return d < 0;
         case Z3_OP_GE: case Z3_OP_GT: return d > 0;
         case Z3_OP_EQ: return false;
         default: return true;
         }
      }
      default: return std::nullopt;
      }
   }
   bool isRealCond(const z3::expr &e)
   {
      bool o;
      bool r = hasReal(e, o);
      return r && !o;
   }
   // does env satisfy every real-valued condition of pc (and cond)?
   bool satisfies(const std::unordered_map<R, double> &m, const std::vector<int> &pc, const z3::expr *cond)
   {
      Env env{&m, {}};
      if (cond) { auto r = evB(*cond, env); if (!r || !*r) { return false; } }
      for (int i : pc)
      {
         if (!isRealCond(ex[i])) { continue; }
         auto r = evB(ex[i], env);
         if (!r || !*r) { return false; }
      }
      return true;
   }
   std::unordered_map<R, double> randomEnv(const std::vector<Input> &in)
   {
      std::unordered_map<R, double> m;
      for (auto &i : in) { if (i.type == 'r') { m[i.v.r] = rndIn(i.lo, i.hi); } }
      return m;
   }
   std::shared_ptr<std::unordered_map<R, double>> sample(const std::vector<Input> &in, const std::vector<int> &pc, const z3::expr *cond, int tries)
   {
      for (int t = 0; t < tries; ++t)
      {
         auto m = randomEnv(in);
         ++nsample;
         if (satisfies(m, pc, cond)) { return std::make_shared<std::unordered_map<R, double>>(std::move(m)); }
      }
      return nullptr;
   }
   // local perturbations of a known good point
   std::shared_ptr<std::unordered_map<R, double>> perturb(const std::unordered_map<R, double> &w, const std::vector<Input> &in, const std::vector<int> &pc, const z3::expr *cond, int tries)
   {
      for (int t = 0; t < tries; ++t)
      {
         auto m = w;
         double sc = std::pow(2.0, -(t % 8));
         for (auto &i : in) { if (i.type == 'r' && rnd() % 2) { m[i.v.r] += sc * (i.hi - i.lo) * 0.5 * (rndIn(-1, 1)); } }
         if (satisfies(m, pc, cond)) { return std::make_shared<std::unordered_map<R, double>>(std::move(m)); }
      }
      return nullptr;
   }
   static double numeralToDouble(z3::context &z, const z3::expr &v)
   {
      if (v.is_algebraic()) { std::string s = Z3_get_numeral_decimal_string(z, v, 25); if (!s.empty() && s.back() == '?') { s.pop_back(); } return std::strtod(s.c_str(), nullptr); }
      std::string s = Z3_get_numeral_string(z, v);
      try { return mpq_class(s).get_d(); } catch (...) { return std::strtod(s.c_str(), nullptr); }
   }
   std::shared_ptr<std::unordered_map<R, double>> fromModel(const std::vector<Input> &in)
   {
      auto m = std::make_shared<std::unordered_map<R, double>>();
      for (auto &i : in)
      {
         if (i.type != 'r') { continue; }
         z3::expr v = lastModel->eval(dag.toZ(i.v.r), true);
         (*m)[i.v.r] = numeralToDouble(z, v);
      }
      return m;
   }
};
