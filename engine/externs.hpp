// Intrinsics, runtime functions and the harness API.
#pragma once
#include "exec.hpp"

inline Val Engine::math1(const std::string &n, Val a, unsigned w)
{
   if (!fpMode)
   {
      R x = rl(a);
      R r = nullptr;
      if (n == "sqrt") { r = D.sqrt(x); }
      else if (n == "cbrt") { r = D.root(x, 3); }
      else if (n == "log") { r = D.fn(RLOG, x); }
      else if (n == "log10") { r = D.div(D.fn(RLOG, x), D.fn(RLOG, D.cst(10))); }
      else if (n == "exp") { r = D.fn(REXP, x); }
      else if (n == "sin") { r = D.fn(RSIN, x); }
      else if (n == "cos") { r = D.fn(RCOS, x); }
      else if (n == "tan") { r = D.fn(RTAN, x); }
      else if (n == "atan") { r = D.fn(RATAN, x); }
      else if (n == "asin") { r = D.fn(RASIN, x); }
      else if (n == "acos") { r = D.fn(RACOS, x); }
      else if (n == "tanh") { r = D.fn(RTANH, x); }
      else if (n == "cosh") { r = D.div(D.add(D.fn(REXP, x), D.fn(REXP, D.neg(x))), D.cst(2)); }
      else if (n == "sinh") { r = D.div(D.sub(D.fn(REXP, x), D.fn(REXP, D.neg(x))), D.cst(2)); }
      else { throw EngineError("math function " + n); }
      return Val::Rl(r, w);
   }
   if (a.k == FPC || a.k == INT)
   {
      double x = fpc(a), r;
      if (n == "sqrt") { r = std::sqrt(x); } else if (n == "log") { r = std::log(x); } else if (n == "exp") { r = std::exp(x); }
      else if (n == "sin") { r = std::sin(x); } else if (n == "cos") { r = std::cos(x); } else if (n == "tan") { r = std::tan(x); }
      else if (n == "atan") { r = std::atan(x); } else if (n == "asin") { r = std::asin(x); } else if (n == "acos") { r = std::acos(x); }
      else if (n == "tanh") { r = std::tanh(x); } else if (n == "cbrt") { r = std::cbrt(x); } else if (n == "log10") { r = std::log10(x); }
      else { throw EngineError("math function " + n); }
      return mkFpc(r, w);
   }
   if (n == "sqrt") { return mkFp(z3::expr(z, Z3_mk_fpa_sqrt(z, z3::expr(z, Z3_mk_fpa_rne(z)), fp(a))), w); }
   // any value: over-approximation
   assumptions.insert("FP mode: " + n + " returns an arbitrary double");
   Val v; v.k = SFP; v.w = (uint16_t)w; v.e = S.idx(fresh(n.c_str(), w));
   return v;
}

static inline bool starts(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }

inline bool Engine::intrinsic(State &s, IntrinsicInst *ii, const PInst &pi, std::vector<Val> &a, Val &ret)
{
   switch (ii->getIntrinsicID())
   {
   case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
   case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
   case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
      return true;
   case Intrinsic::stacksave: ret = Val::I(0, 64); return true;
   case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
   {
      uint64_t n = concretize(s, a[2], "memcpy size");
      uint64_t d = concretize(s, a[0], "address"), sr = concretize(s, a[1], "address");
      copyMem(s, d, sr, n);
      return true;
   }
   case Intrinsic::memset: case Intrinsic::memset_inline:
   {
      uint64_t n = concretize(s, a[2], "memset size");
      setMem(s, concretize(s, a[0], "address"), a[1], n);
      return true;
   }
   case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; return true;
   case Intrinsic::is_constant: ret = Val::I(0, 1); return true;
   case Intrinsic::objectsize: ret = Val::I(~0ull, bitsOf(ii->getType())); return true;
   case Intrinsic::eh_typeid_for: ret = Val::I(a[0].u ? a[0].u : 1, 32); return true;
   case Intrinsic::threadlocal_address: ret = a[0]; return true;
   case Intrinsic::trap: reportViolation(s, "trap", "abort", "trap reached" + where(s), nullptr); throw KillPath{"trap"};
   case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
   {
      auto id = ii->getIntrinsicID();
      auto p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      Val c = icmp(p, a[0], a[1]);
      ret = c.k == INT ? (c.u ? a[0] : a[1]) : mkSym(z3::ite(boolE(c), bv(a[0]), bv(a[1])));
      return true;
   }
   case Intrinsic::abs:
   {
      if (a[0].k == INT) { ret = Val::I((uint64_t)std::llabs(a[0].s()), a[0].w); }
      else { z3::expr e = bv(a[0]); ret = mkSym(z3::ite(z3::slt(e, z.bv_val(0, a[0].w)), -e, e)); }
      return true;
   }
   case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
   case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
   {
      auto id = ii->getIntrinsicID();
      unsigned w = a[0].w;
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      z3::expr x = sg ? z3::sext(bv(a[0]), w) : z3::zext(bv(a[0]), w), y = sg ? z3::sext(bv(a[1]), w) : z3::zext(bv(a[1]), w);
      z3::expr r = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? x + y : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? x - y : x * y;
      z3::expr lo = r.extract(w - 1, 0);
      z3::expr ov = (sg ? z3::sext(lo, w) : z3::zext(lo, w)) != r;
      ret = mkAgg({mkSym(lo), mkSym(ov)});
      return true;
   }
   case Intrinsic::usub_sat:
   {
      Val c = icmp(CmpInst::ICMP_UGT, a[0], a[1]);
      Val d = binop(s, Instruction::Sub, a[0], a[1], ii);
      if (c.k == INT) { ret = c.u ? d : Val::I(0, a[0].w); } else { ret = mkSym(z3::ite(boolE(c), bv(d), z.bv_val(0, a[0].w))); }
      return true;
   }
   case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap:
   {
      uint64_t v = concretize(s, a[0], "bit intrinsic");
      unsigned w = a[0].w, r = 0;
      auto id = ii->getIntrinsicID();
      if (id == Intrinsic::ctpop) { r = __builtin_popcountll(v); ret = Val::I(r, w); }
      else if (id == Intrinsic::ctlz) { while (r < w && !((v >> (w - 1 - r)) & 1)) { ++r; } ret = Val::I(r, w); }
      else if (id == Intrinsic::cttz) { while (r < w && !((v >> r) & 1)) { ++r; } ret = Val::I(r, w); }
      else { uint64_t o = 0; for (unsigned i = 0; i < w / 8; ++i) { o |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i); } ret = Val::I(o, w); }
      return true;
   }
   case Intrinsic::fshl: case Intrinsic::fshr:
   {
      unsigned w = a[0].w;
      uint64_t sh = concretize(s, a[2], "shift") % w;
      z3::expr c = z3::concat(bv(a[0]), bv(a[1]));
      if (ii->getIntrinsicID() == Intrinsic::fshl) { ret = mkSym(z3::shl(c, z.bv_val(sh, 2 * w)).extract(2 * w - 1, w)); }
      else { ret = mkSym(z3::lshr(c, z.bv_val(sh, 2 * w)).extract(w - 1, 0)); }
      return true;
   }
   case Intrinsic::fabs:
   {
      unsigned w = bitsOf(ii->getType());
      if (fpMode)
      {
         if (a[0].k == FPC) { ret = mkFpc(std::fabs(fpc(a[0])), w); } else { ret = mkFp(z3::expr(z, Z3_mk_fpa_abs(z, fp(a[0]))), w); }
         return true;
      }
      R x = rl(a[0]);
      if (x->op == RC) { mpq_class c = abs(x->c); ret = Val::Rl(D.cst(c), w); return true; }
      if (x->op == RSPECIAL) { ret = Val::Rl(D.special(std::fabs(x->d)), w); return true; }
      ret = Val::Rl(decide(s, negCond(x)) ? D.neg(x) : x, w);
      return true;
   }
   case Intrinsic::copysign:
   {
      R x = rl(a[0]), y = rl(a[1]);
      if (fpMode) { if (a[0].k == FPC && a[1].k == FPC) { ret = mkFpc(std::copysign(fpc(a[0]), fpc(a[1]))); return true; } throw EngineError("copysign in FP mode"); }
      R ax = x->op == RC ? D.cst(mpq_class(abs(x->c))) : decide(s, negCond(x)) ? D.neg(x) : x;
      bool ng = y->op == RC ? y->c < 0 : decide(s, D.toZ(y) < 0);
      ret = Val::Rl(ng ? D.neg(ax) : ax, 64);
      return true;
   }
   case Intrinsic::sqrt: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::log10:
   {
      auto id = ii->getIntrinsicID();
      ret = math1(id == Intrinsic::sqrt ? "sqrt" : id == Intrinsic::log ? "log" : id == Intrinsic::exp ? "exp" : id == Intrinsic::sin ? "sin" : id == Intrinsic::log10 ? "log10" : "cos", a[0], bitsOf(ii->getType()));
      return true;
   }
   case Intrinsic::pow: case Intrinsic::powi:
   {
      if (fpMode)
      {
         if (a[0].k == FPC && a[1].k == FPC) { ret = mkFpc(std::pow(fpc(a[0]), fpc(a[1]))); return true; }
         if (a[1].k == FPC && fpc(a[1]) == 2.0) { ret = fbin(Instruction::FMul, a[0], a[0], 64); return true; }
         throw EngineError("symbolic pow in FP mode");
      }
      R e = ii->getIntrinsicID() == Intrinsic::powi ? D.cst((long)a[1].s()) : rl(a[1]);
      ret = Val::Rl(D.pow(rl(a[0]), e));
      return true;
   }
   case Intrinsic::fmuladd: case Intrinsic::fma:
      ret = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], 64), a[2], 64);
      return true;
   case Intrinsic::maxnum: case Intrinsic::minnum:
   {
      Val c = fcmp(ii->getIntrinsicID() == Intrinsic::maxnum ? CmpInst::FCMP_OGE : CmpInst::FCMP_OLE, a[0], a[1]);
      ret = decideV(s, c) ? a[0] : a[1];
      return true;
   }
   case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:
   {
      auto id = ii->getIntrinsicID();
      double x;
      if (fpMode && a[0].k == FPC) { x = fpc(a[0]); }
      else if (!fpMode && rl(a[0])->op == RC)
      {
         mpq_class q = rl(a[0])->c;
         x = q.get_d();
      }
      else if (!fpMode)
      {
         // any value: enough where the result is only printed
         assumptions.insert("the result of rounding a symbolic real is any real");
         ret = Val::Rl(newUndefReal());
         return true;
      }
      else { throw EngineError("rounding of a symbolic real" + where(s)); }
      double r = id == Intrinsic::floor ? std::floor(x) : id == Intrinsic::ceil ? std::ceil(x) : id == Intrinsic::trunc ? std::trunc(x) : id == Intrinsic::round ? std::round(x) : std::nearbyint(x);
      ret = fpMode ? mkFpc(r) : Val::Rl(D.fromDouble(r));
      return true;
   }
   case Intrinsic::is_fpclass:
   {
      unsigned m = (unsigned)a[1].u;
      if (!fpMode)
      {
         R x = rl(a[0]);
         if (x->op == RSPECIAL) { bool r = std::isnan(x->d) ? (m & 3) : x->d > 0 ? (m & 512) : (m & 4); ret = Val::I(r, 1); return true; }
         // finite: neg normal 8, zero 32|64, pos normal 256
         if (x->op == RC) { ret = Val::I((x->c < 0 ? (m & 8) : x->c == 0 ? (m & 0x60) : (m & 256)) != 0, 1); return true; }
         if ((m & (8 | 0x60 | 256)) == (8 | 0x60 | 256)) { ret = Val::I(1, 1); return true; }
         if ((m & (8 | 0x60 | 256)) == 0) { ret = Val::I(0, 1); return true; }
         throw EngineError("is_fpclass");
      }
      z3::expr f = fp(a[0]);
      z3::expr r = z.bool_val(false);
      z3::expr neg(z, Z3_mk_fpa_is_negative(z, f));
      if (m & 3) { r = r || z3::expr(z, Z3_mk_fpa_is_nan(z, f)); }
      z3::expr inf(z, Z3_mk_fpa_is_infinite(z, f)), nrm(z, Z3_mk_fpa_is_normal(z, f)), sub(z, Z3_mk_fpa_is_subnormal(z, f)), zer(z, Z3_mk_fpa_is_zero(z, f));
      if (m & 4) { r = r || (inf && neg); }
      if (m & 512) { r = r || (inf && !neg); }
      if (m & 8) { r = r || (nrm && neg); }
      if (m & 256) { r = r || (nrm && !neg); }
      if (m & 16) { r = r || (sub && neg); }
      if (m & 128) { r = r || (sub && !neg); }
      if (m & 32) { r = r || (zer && neg); }
      if (m & 64) { r = r || (zer && !neg); }
      ret = mkSym(r);
      return true;
   }
   default: throw EngineError("unsupported intrinsic " + ii->getCalledFunction()->getName().str() + where(s));
   }
}

// stream output and message formatting have no effect on the properties
inline bool nopByName(const std::string &d)
{
   static const char *pre[] = {
      "std::basic_ostream<char, std::char_traits<char>>", "std::ostream", "std::basic_ios<", "std::ios_base",
      "std::basic_ostringstream", "std::__cxx11::basic_ostringstream", "std::__cxx11::basic_stringstream", "std::__cxx11::basic_stringbuf", "std::locale",
      "std::exception::", "std::runtime_error::", "std::logic_error::", "std::out_of_range::", "std::invalid_argument::", "std::length_error::",
      "std::domain_error::", "std::range_error::", "std::bad_alloc", "std::setprecision", "std::setw", "mfem::out", "mfem::err", "mfem::OutStream",
      "mfem::Memory<double>::PrintFlags"};
   for (auto p : pre) { if (starts(d, p)) { return true; } }
   return d.find("operator<<") != std::string::npos && d.find("basic_ostream") != std::string::npos;
}

inline bool Engine::external(State &s, Function *f, const PInst &pi, std::vector<Val> &a, Val &ret)
{
   const std::string n = f->getName().str();
   auto C = [&](unsigned i) { return concretize(s, a[i], "argument"); };
   auto unsup = [&]() { throw EngineError("unsupported use of " + n); };
   (void)unsup;
   // numbers in text: concrete text only
   const std::string sn = starts(n, "__isoc23_") ? n.substr(9) : n;
   if (sn == "strtod" || sn == "strtoll" || sn == "strtoull" || sn == "strtol" || sn == "strtof")
   {
      const uint64_t at = C(0);
      const std::string t = readStr(s, at);
      char *e = nullptr;
      errno = 0;
      if (sn == "strtod") { double d = std::strtod(t.c_str(), &e); ret = fpMode ? mkFpc(d, 64) : Val::Rl(D.fromDouble(d), 64); }
      else if (sn == "strtof") { unsup(); }
      else if (sn == "strtoull") { ret = Val::I(std::strtoull(t.c_str(), &e, (int)C(2)), 64); }
      else { ret = Val::I((uint64_t)std::strtoll(t.c_str(), &e, (int)C(2)), 64); }
      if (errno) { unsup(); }
      if (uint64_t q = C(1))
      {
         Obj *o = check(s, q, 8, true);
         storeBytes(o, (uint32_t)(q - o->addr), Val::I(at + (uint64_t)(e - t.c_str()), 64), 8);
      }
      return true;
   }
   // ---------------------------------------------------------- harness API
   if (starts(n, "sym_"))
   {
      auto uname = [&](unsigned k) {
         std::string nm = readStr(s, C(k));
         long i = (long)(int32_t)C(k + 1);
         nm += "[" + std::to_string(i) + "]";
         for (auto &x : s.inputs) { if (x.name == nm) { return nm + "#" + std::to_string(s.nameCount[nm]); } }
         return nm;
      };
      auto existing = [&](const std::string &nm) -> Input * { for (auto &x : s.inputs) { if (x.name == nm) { return &x; } } return nullptr; };
      auto baseName = [&](unsigned k) { return readStr(s, C(k)) + "[" + std::to_string((long)(int32_t)C(k + 1)) + "]"; };
      (void)uname;
      if (n == "sym_real" || n == "sym_real_in")
      {
         std::string nm = baseName(0);
         if (Input *e = existing(nm)) { ret = e->v; return true; }
         R r = D.var(nm);
         Input in{nm, 'r', Val::Rl(r), -4, 4};
         if (n == "sym_real_in")
         {
            in.lo = D.dv(rl(a[2]));
            in.hi = D.dv(rl(a[3]));
         }
         s.inputs.push_back(in);
         if (s.witness || s.inputs.size() == 1 || true)
         {
            auto w = s.witness ? std::make_shared<std::unordered_map<R, double>>(*s.witness) : std::make_shared<std::unordered_map<R, double>>();
            bool had = s.witness != nullptr;
            bool anyReal = false;
            for (size_t i = 0; i + 1 < s.inputs.size(); ++i) { anyReal |= s.inputs[i].type == 'r'; }
            if (had || !anyReal) { (*w)[r] = S.rndIn(in.lo, in.hi); s.witness = w; }
         }
         if (n == "sym_real_in")
         {
            z3::expr e = D.toZ(r);
            Input &ib = s.inputs.back();
            ib.boxed = true; ib.blo = in.lo; ib.bhi = in.hi;
            addPc(s, e >= D.toZ(rl(a[2])) && e <= D.toZ(rl(a[3])));
            std::pair<mpq_class, mpq_class> bx{mpq_class(in.lo), mpq_class(in.hi)};
            auto bi = D.box.emplace(r, bx);
            if (!bi.second && bi.first->second != bx) { throw EngineError("input " + nm + " declared with two ranges"); }
            if (in.lo > 0) { D.positive.insert(r); }
         }
         ret = in.v;
         return true;
      }
      if (n == "sym_hint")   // sampling range only (not an assumption)
      {
         std::string nm = baseName(0);
         if (Input *e = existing(nm)) { e->lo = D.dv(rl(a[2])); e->hi = D.dv(rl(a[3])); if (s.witness) { auto w = std::make_shared<std::unordered_map<R, double>>(*s.witness); (*w)[e->v.r] = S.rndIn(e->lo, e->hi); s.witness = w; } }
         return true;
      }
      if (n == "sym_double")
      {
         std::string nm = baseName(0);
         if (Input *e = existing(nm)) { ret = e->v; return true; }
         if (!fpMode) { throw EngineError("sym_double needs FP mode"); }
         Val v; v.k = SFP; v.w = 64; v.e = S.idx(z.bv_const(nm.c_str(), 64));
         s.inputs.push_back({nm, 'd', v, 0, 0});
         ret = v;
         return true;
      }
      if (n == "sym_int" || n == "sym_choice")
      {
         std::string nm = baseName(0);
         Input *e = existing(nm);
         if (!e)
         {
            Val v = mkSym(z.bv_const(nm.c_str(), 32));
            s.inputs.push_back({nm, 'i', v, 0, 0});
            addPc(s, z3::sge(bv(v), z.bv_val((int)C(2), 32)) && z3::sle(bv(v), z.bv_val((int)C(3), 32)));
            e = &s.inputs.back();
         }
         if (n == "sym_choice")
         {
            Val v = e->v;
            if (v.k != INT)
            {
               int lo = (int)C(2), hi = (int)C(3);
               for (int k = lo; k <= hi; ++k)
               {
                  if (k == hi || decide(s, bv(v) == z.bv_val(k, 32))) { existing(nm)->v = Val::I((uint64_t)(int64_t)k, 32); ret = existing(nm)->v; return true; }
               }
            }
         }
         ret = e->v;
         return true;
      }
      if (n == "sym_assume")
      {
         if (a[0].k == INT) { if (!(a[0].u & 1)) { throw KillPath{"assumption"}; } return true; }
         z3::expr c = boolE(a[0]).simplify();
         bool known = s.witness && S.isRealCond(c) && S.satisfies(*s.witness, {}, &c);
         if (!known && S.check(s.pc, c, S.branchTimeoutMs) == UNSAT) { throw KillPath{"assumption"}; }
         addPc(s, c);
         fixWitness(s, c, false);
         return true;
      }
      if (n == "sym_assert") { assertBool(s, a[0], readStr(s, C(1))); return true; }
      // for looking at an encoding: the values asserted are observed as well
      static const bool observeAsserts = getenv("SYM_OBSERVE_ASSERTS") != nullptr;
      if (observeAsserts && (n == "sym_assert_eq" || n == "sym_assert_eqs" || n == "sym_assert_near") && s.observed.size() < 400) { s.observed.push_back({"asserted", a[0]}); }
      if (n == "sym_assert_eq") { assertEq(s, a[0], a[1], readStr(s, C(2)), 1.0); return true; }
      if (n == "sym_assert_eqs") { assertEq(s, a[0], a[1], readStr(s, C(2)), D.dv(rl(a[3]))); return true; }
      if (n == "sym_assert_near") { assertNear(s, a[0], a[1], rl(a[2]), readStr(s, C(3))); return true; }
      if (n == "sym_observe") { s.observed.push_back({readStr(s, C(0)), a[1]}); return true; }
      if (n == "sym_observe_int") { s.observed.push_back({readStr(s, C(0)), a[1]}); return true; }
      if (n == "sym_reach") { reached[readStr(s, C(0))]++; return true; }
      if (n == "sym_fail") { asserts[readStr(s, C(0))].checked++; reportViolation(s, readStr(s, C(0)), "assert", "failure reached" , nullptr); throw KillPath{"fail"}; }
      if (n == "sym_end") { throw KillPath{"returned"}; }
      if (n == "sym_abort")
      {
         if (!s.allowAbort) { asserts["no-abort"].checked++; reportViolation(s, "no-abort", "abort", "abort reached" + where(s), nullptr); }
         throw KillPath{"abort"};
      }
      if (n == "sym_allow_abort") { s.allowAbort = true; return true; }
      if (n == "sym_is_symbolic") { ret = Val::I(1, 32); return true; }
      if (n == "sym_diff")
      {
         R v = rl(a[1]);
         if (v->op != RV) { throw EngineError("sym_diff: not a variable"); }
         ret = Val::Rl(D.diff(rl(a[0]), v));
         return true;
      }
      if (n == "sym_uf")   // (name, n, const double *args)
      {
         std::string nm = readStr(s, C(0));
         uint64_t k = C(1), p = C(2);
         std::vector<R> ar;
         for (uint64_t i = 0; i < k; ++i) { ar.push_back(rl(load(s, p + 8 * i, Type::getDoubleTy(ctx)))); }
         ret = Val::Rl(D.uf(nm, ar));
         return true;
      }
      if (n == "sym_print")
      {
         std::cerr << readStr(s, C(0)) << " = " << (a[1].k == REAL ? D.str(a[1].r, 12) : a[1].k == INT ? std::to_string(a[1].s()) : a[1].k == FPC ? std::to_string(fpc(a[1])) : a[1].k == UNDEF ? "undef" : E(a[1]).to_string()) << "\n";
         return true;
      }
      if (n == "sym_counter_inc") { ret = Val::I((uint64_t)++s.counters[readStr(s, C(0))], 32); return true; }
   }
   // ------------------------------------------------------------- runtime
   if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t")
   {
      uint64_t sz = C(0);
      if (sz > (1ull << 28)) { throw EngineError("allocation of " + std::to_string(sz) + " bytes" + where(s)); }
      ret = Val::I(alloc(s, sz, 'h', "heap"), 64);
      return true;
   }
   if (n == "aligned_alloc") { ret = Val::I(alloc(s, C(1), 'h', "heap"), 64); return true; }
   if (n == "calloc")
   {
      uint64_t sz = C(0) * C(1), p = alloc(s, sz, 'h', "heap");
      if (sz) { setMem(s, p, Val::I(0, 8), sz); }
      ret = Val::I(p, 64);
      return true;
   }
   if (n == "free" || starts(n, "_ZdlPv") || starts(n, "_ZdaPv"))
   {
      uint64_t p = C(0);
      if (p == 0) { return true; }
      auto it = s.mem.find(p);
      if (it == s.mem.end() || it->second->kind != 'h') { memError(s, "invalid free" + where(s)); }
      s.mem.erase(it);
      return true;
   }
   if (n == "memcpy" || n == "memmove") { copyMem(s, C(0), C(1), C(2)); ret = a[0]; return true; }
   if (n == "memset") { setMem(s, C(0), a[1].k == INT ? Val::I(a[1].u, 8) : mkSym(bv(a[1]).extract(7, 0)), C(2)); ret = a[0]; return true; }
   if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") { ret = Val::I(0, 32); return true; }
   if (n == "__cxa_guard_acquire")
   {
      Val v = load(s, C(0), Type::getInt8Ty(ctx));
      ret = Val::I(v.k == INT && v.u ? 0 : 1, 32);
      return true;
   }
   if (n == "__cxa_guard_release") { store(s, C(0), Val::I(1, 8), Type::getInt8Ty(ctx)); return true; }
   if (n == "__cxa_guard_abort") { return true; }
   if (n == "__cxa_pure_virtual" || n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "exit")
   {
      if (!s.allowAbort) { asserts["no-abort"].checked++; reportViolation(s, "no-abort", "abort", n + " reached" + where(s), nullptr); }
      throw KillPath{"abort"};
   }
   if (n == "__cxa_allocate_exception") { ret = Val::I(alloc(s, C(0), 'h', "exception"), 64); return true; }
   if (n == "__cxa_free_exception") { s.mem.erase(C(0)); return true; }
   if (n == "__cxa_throw")
   {
      s.inflight = Exc{C(0), C(1)};
      if (getenv("SYMEX_DEBUG")) { std::cerr << "throw" << where(s) << "\n"; }
      unwind(s);
      return true;
   }
   if (n == "__cxa_rethrow") { s.inflight = s.caught.back(); s.caught.pop_back(); unwind(s); return true; }
   if (n == "__cxa_begin_catch") { s.caught.push_back(s.inflight); ret = a[0]; return true; }
   if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
   if (n == "__cxa_end_catch") { if (!s.caught.empty()) { s.caught.pop_back(); } return true; }
   if (n == "__dynamic_cast")
   {
      // (ptr, src ti, dst ti, hint): walk from the most derived type
      uint64_t p = C(0), dst = C(2);
      if (!p) { ret = Val::I(0, 64); return true; }
      Type *i64 = Type::getInt64Ty(ctx);
      uint64_t vt = load(s, p, i64).u;
      int64_t top = (int64_t)load(s, vt - 16, i64).u;
      uint64_t ti = load(s, vt - 8, i64).u;
      uint64_t full = p + top;
      std::function<uint64_t(uint64_t, uint64_t)> walk = [&](uint64_t t, uint64_t q) -> uint64_t {
         if (t == dst) { return q; }
         std::vector<std::pair<uint64_t, long>> b;
         typeBase(s, t, b);
         for (auto &x : b)
         {
            long off = x.second;
            if (off < -(1l << 40)) { long vo = off - LONG_MIN; uint64_t v2 = load(s, q, i64).u; off = (long)load(s, v2 + vo, i64).u; }
            uint64_t r = x.first ? walk(x.first, q + off) : 0;
            if (r) { return r; }
         }
         return 0;
      };
      ret = Val::I(walk(ti, full), 64);
      return true;
   }
   if (n == "__cxa_bad_cast" || n == "__cxa_bad_typeid" || starts(n, "_ZSt") )
   {
      static const std::map<std::string, std::string> thr = {
         {"__cxa_bad_cast", "_ZTISt8bad_cast"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
         {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
         {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
         {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
         {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt27__throw_bad_optional_accessv", "_ZTISt19bad_optional_access"},
         {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}};
      auto it = thr.find(n);
      if (it != thr.end() && f->isDeclaration())
      {
         GlobalVariable *g = M->getNamedGlobal(it->second);
         uint64_t ti;
         if (g) { ti = gaddr[g]; }
         else
         {
            static std::map<std::string, uint64_t> made;
            ti = made[it->second];
            if (!ti || !find(s, ti))
            {
               ti = alloc(s, 64, 'g', "external " + it->second);
               globals[ti] = s.mem[ti];
               s.mem.erase(ti);
               made[it->second] = ti;
            }
         }
         if (getenv("SYMEX_DEBUG")) { std::cerr << "throw " << n << where(s) << "\n"; }
         s.inflight = Exc{alloc(s, 64, 'h', "exception"), ti};
         unwind(s);
         return true;
      }
   }
   if (n == "sqrt" || n == "log" || n == "exp" || n == "sin" || n == "cos" || n == "tan" || n == "atan" || n == "asin" || n == "acos" || n == "tanh" || n == "cbrt" || n == "log10" || n == "cosh" || n == "sinh") { ret = math1(n, a[0], 64); return true; }
   if (n == "exp2" && !fpMode) { ret = Val::Rl(D.pow(D.cst(2), rl(a[0]))); return true; }
   if (n == "exp10" && !fpMode) { ret = Val::Rl(D.pow(D.cst(10), rl(a[0]))); return true; }
   if (n == "log1p" && !fpMode) { ret = Val::Rl(D.fn(RLOG, D.add(D.cst(1), rl(a[0])))); return true; }
   if (n == "expm1" && !fpMode) { ret = Val::Rl(D.sub(D.fn(REXP, rl(a[0])), D.cst(1))); return true; }
   if (n == "tgamma" && !fpMode)
   {
      R x = rl(a[0]);
      if (x->op != RC) { throw EngineError("gamma function of a symbolic value"); }
      if (D.ieee || x->c.get_den() != 1 || x->c <= 0 || x->c > 100) { ret = Val::Rl(D.rnd(std::tgamma(x->c.get_d()))); return true; }
      mpz_class f;
      mpz_fac_ui(f.get_mpz_t(), x->c.get_num().get_ui() - 1);
      ret = Val::Rl(D.cst(mpq_class(f)));
      return true;
   }
   if (n == "sqrtf") { ret = math1("sqrt", a[0], 32); return true; }
   if (n == "pow")
   {
      if (!fpMode) { ret = Val::Rl(D.pow(rl(a[0]), rl(a[1]))); return true; }
      if (a[0].k == FPC && a[1].k == FPC) { ret = mkFpc(std::pow(fpc(a[0]), fpc(a[1]))); return true; }
      if (a[1].k == FPC && fpc(a[1]) == 2.0) { ret = fbin(Instruction::FMul, a[0], a[0], 64); return true; }
      throw EngineError("symbolic pow in FP mode");
   }
   if (n == "atan2") { if (fpMode) { throw EngineError("atan2"); } ret = Val::Rl(D.atan2(rl(a[0]), rl(a[1]))); return true; }
   if (n == "hypot") { if (fpMode) { throw EngineError("hypot"); } R x = rl(a[0]), y = rl(a[1]); ret = Val::Rl(D.sqrt(D.add(D.mul(x, x), D.mul(y, y)))); return true; }
   if (n == "floor" || n == "ceil" || n == "round" || n == "fmod" || n == "trunc" || n == "ldexp" || n == "frexp")
   {
      bool c0 = fpMode ? a[0].k == FPC : rl(a[0])->op == RC;
      if (!c0) { throw EngineError(n + " of a symbolic value" + where(s)); }
      double x = fpMode ? fpc(a[0]) : rl(a[0])->c.get_d();
      double y = n == "fmod" ? (fpMode ? fpc(a[1]) : rl(a[1])->c.get_d()) : 0;
      double r = n == "floor" ? std::floor(x) : n == "ceil" ? std::ceil(x) : n == "round" ? std::round(x) : n == "trunc" ? std::trunc(x) : std::fmod(x, y);
      ret = fpMode ? mkFpc(r) : Val::Rl(D.fromDouble(r));
      return true;
   }
   if (n == "MPI_Comm_rank") { store(s, C(1), Val::I(0, 32), Type::getInt32Ty(ctx)); ret = Val::I(0, 32); return true; }
   if (n == "MPI_Comm_size") { store(s, C(1), Val::I(1, 32), Type::getInt32Ty(ctx)); ret = Val::I(0, 32); return true; }
   if (n == "snprintf")   // text made of concrete %d and %s fields
   {
      std::string f = readStr(s, C(2)), o;
      size_t ai = 3;
      for (size_t i = 0; i < f.size(); ++i)
      {
         if (f[i] != '%') { o += f[i]; continue; }
         ++i;
         if (f[i] == 'd' || f[i] == 'i') { o += std::to_string((int32_t)C(ai++)); }
         else if (f[i] == 's') { o += readStr(s, C(ai++)); }
         else if (f[i] == '%') { o += '%'; }
         else { throw EngineError("snprintf format " + f); }
      }
      uint64_t p = C(0), cap = C(1);
      for (uint64_t i = 0; i < cap && i <= o.size(); ++i) { store(s, p + i, Val::I(i < o.size() && i + 1 < cap ? (unsigned char)o[i] : 0, 8), Type::getInt8Ty(ctx)); }
      ret = Val::I(o.size(), 32);
      return true;
   }
   if (n == "puts" || n == "printf" || n == "fprintf" || n == "putchar" || n == "fflush" || n == "fwrite" || n == "fputs" || n == "fputc") { ret = Val::I(0, 32); return true; }
   // -------------------------------------------------------- message output
   if (starts(n, "_ZNSt") || starts(n, "_ZSt") || starts(n, "_ZNKSt") || starts(n, "_ZNSo") || starts(n, "_ZN4mfem"))
   {
      const std::string &d = info(f)->demangled;
      if (n.find("basic_ostringstream") != std::string::npos || n.find("basic_stringstream") != std::string::npos || n.find("basic_stringbuf") != std::string::npos)
      {
         if (d.find("::str() const") != std::string::npos)
         {
            uint64_t p = C(0);
            store(s, p, Val::I(p + 16, 64), Type::getInt64Ty(ctx));
            store(s, p + 8, Val::I(0, 64), Type::getInt64Ty(ctx));
            store(s, p + 16, Val::I(0, 8), Type::getInt8Ty(ctx));
            return true;
         }
      }
      if (starts(n, "_ZNKSt9exception4what") || starts(n, "_ZNKSt13runtime_error4what") || starts(n, "_ZNKSt11logic_error4what"))
      {
         uint64_t p = alloc(s, 8, 'g', "what");
         setMem(s, p, Val::I(0, 8), 8);
         ret = Val::I(p, 64);
         return true;
      }
      if (nopByName(d)) { if (!a.empty() && !f->getReturnType()->isVoidTy()) { ret = a[0]; if (f->getReturnType()->isIntegerTy()) { ret = Val::I(0, bitsOf(f->getReturnType())); } if (f->getReturnType()->isAggregateType()) { throw EngineError("nop aggregate " + d); } } return true; }
   }
   return false;
}

inline void Engine::runState(State *sp)
{
   State &s = *sp;
   cur = sp;
   std::string why = "returned";
   try
   {
      while (!s.stack.empty())
      {
         try { step(s); }
         catch (EngineError &x)
         {
            const std::string m = x.what();
            if (m.find(" <- ") != std::string::npos || s.stack.empty()) { throw; }
            throw EngineError(m + where(s));
         }
         if ((insts & 0x3fff) == 0 && elapsed() > budget) { throw EngineError("time budget exhausted"); }
         if (s.steps > 80000000) { throw EngineError("step bound exceeded" + where(s)); }
      }
   }
   catch (KillPath &k) { why = k.why; }
   cur = sp;
   if (why == "infeasible") { ended[why]++; }
   else { endPath(s, why); }
   cur = nullptr;
}

inline void Engine::run()
{
   t0 = std::chrono::steady_clock::now();
   auto *s = new State;
   cur = s;
   initGlobals(*s);
   // static initialisers, then the harness
   std::vector<std::pair<int, Function *>> ctors;
   if (auto *g = M->getNamedGlobal("llvm.global_ctors"))
   {
      if (auto *arr = dyn_cast<ConstantArray>(g->getInitializer()))
      {
         for (auto &o : arr->operands())
         {
            auto *cs = cast<ConstantStruct>(o);
            if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) { ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), fn}); }
         }
      }
   }
   std::stable_sort(ctors.begin(), ctors.end(), [](auto &x, auto &y) { return x.first < y.first; });
   for (auto &c : ctors)
   {
      if (getenv("SYMEX_DEBUG")) { std::cerr << "ctor " << c.second->getName().str() << "\n"; }
      pushCall(*s, c.second, {}, nullptr);
      while (!s->stack.empty()) { step(*s); }
   }
   s->stack.clear();
   Function *h = M->getFunction(entry);
   if (!h) { throw EngineError("no entry " + entry); }
   executed.clear();
   pushCall(*s, h, {}, nullptr);
   work.push_back(s);
   while (!work.empty())
   {
      State *x = work.back();
      work.pop_back();
      runState(x);
      delete x;
      if (!violations.empty() && stopAtFirst) { break; }
      if (paths > maxPaths) { throw EngineError("path bound exceeded"); }
   }
}
