// Instruction semantics.
#pragma once
#include "engine.hpp"

inline bool nopByName(const std::string &d);

inline void Engine::loadModule(const std::string &path, const std::string &ent)
{
   SMDiagnostic err;
   M = parseIRFile(path, err, ctx);
   if (!M) { throw EngineError("cannot load " + path + ": " + err.getMessage().str()); }
   DL = &M->getDataLayout();
   entry = ent;
}

inline FuncInfo *Engine::info(Function *f)
{
   auto it = fis.find(f);
   if (it != fis.end()) { return it->second.get(); }
   auto fi = std::make_unique<FuncInfo>();
   fi->F = f;
   fi->name = f->getName().str();
   fi->demangled = llvm::demangle(fi->name);
   if (auto *sp = f->getSubprogram())
   {
      std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str();
      std::string full = fn.size() && fn[0] == '/' ? fn : dir + "/" + fn;
      fi->repo = full.find("/repo/src") != std::string::npos;
   }
   unsigned n = 0;
   for (auto &a : f->args()) { fi->slot[&a] = n++; }
   for (auto &bb : *f) { for (auto &i : bb) { if (!i.getType()->isVoidTy()) { fi->slot[&i] = n++; } } }
   fi->nslots = n;
   for (auto &bb : *f)
   {
      auto bi = std::make_unique<BlockInfo>();
      bi->bb = &bb;
      for (auto &i : bb)
      {
         if (isa<DbgInfoIntrinsic>(i)) { continue; }
         PInst p;
         p.I = &i;
         p.slot = i.getType()->isVoidTy() ? -1 : fi->slot[&i];
         if (isa<PHINode>(i)) { bi->nphi++; }
         for (auto &o : i.operands())
         {
            Op op;
            op.slot = -1;
            Value *v = o.get();
            auto f2 = fi->slot.find(v);
            if (f2 != fi->slot.end()) { op.slot = f2->second; }
            else if (auto *c = dyn_cast<Constant>(v)) { op.c = constant(c); }
            p.ops.push_back(op);
         }
         bi->ins.push_back(std::move(p));
      }
      fi->bmap[&bb] = bi.get();
      fi->blocks.push_back(std::move(bi));
   }
   return (fis[f] = std::move(fi)).get();
}

inline Val Engine::constant(const Constant *c)
{
   if (auto *ci = dyn_cast<ConstantInt>(c))
   {
      unsigned w = ci->getBitWidth();
      if (w <= 64) { return Val::I(ci->getZExtValue(), w); }
      SmallString<64> str;
      ci->getValue().toString(str, 10, false);
      Val v; v.k = SYM; v.w = w; v.e = S.idx(z.bv_val(str.c_str(), w));
      return v;
   }
   if (auto *cf = dyn_cast<ConstantFP>(c))
   {
      Type *t = cf->getType();
      if (t->isDoubleTy() || t->isFloatTy())
      {
         double d = t->isDoubleTy() ? cf->getValueAPF().convertToDouble() : (double)cf->getValueAPF().convertToFloat();
         unsigned w = t->isDoubleTy() ? 64 : 32;
         return fpMode ? mkFpc(d, w) : Val::Rl(D.fromDouble(d), w);
      }
      return Val::Undef(80);
   }
   if (isa<ConstantPointerNull>(c)) { return Val::I(0, 64); }
   if (isa<UndefValue>(c))
   {
      if (c->getType()->isAggregateType())
      {
         std::vector<Val> v;
         unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
         for (unsigned i = 0; i < n; ++i) { v.push_back(constant(c->getAggregateElement(i))); }
         return mkAgg(v);
      }
      if (c->getType()->isSized()) { return Val::Undef(bitsOf(c->getType())); }
      return Val::Undef(64);
   }
   if (auto *gv = dyn_cast<GlobalValue>(c))
   {
      if (auto *al = dyn_cast<GlobalAlias>(gv)) { return constant(al->getAliasee()); }
      auto it = gaddr.find(gv);
      if (it == gaddr.end()) { throw EngineError("unknown global " + gv->getName().str()); }
      return Val::I(it->second, 64);
   }
   if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c))
   {
      std::vector<Val> v;
      Type *t = c->getType();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      if (n > 4096) { throw EngineError("large constant aggregate operand"); }
      for (unsigned i = 0; i < n; ++i) { v.push_back(constant(c->getAggregateElement(i))); }
      return mkAgg(v);
   }
   if (auto *ce = dyn_cast<ConstantExpr>(c))
   {
      switch (ce->getOpcode())
      {
      case Instruction::GetElementPtr:
      {
         auto *g = cast<GEPOperator>(ce);
         APInt off(64, 0);
         if (!g->accumulateConstantOffset(*DL, off)) { throw EngineError("gep constexpr"); }
         return Val::I(constant(cast<Constant>(g->getPointerOperand())).u + off.getSExtValue(), 64);
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
         return Val::I(constant(ce->getOperand(0)).u, bitsOf(ce->getType()));
      case Instruction::Add: return Val::I(constant(ce->getOperand(0)).u + constant(ce->getOperand(1)).u, bitsOf(ce->getType()));
      case Instruction::Sub: return Val::I(constant(ce->getOperand(0)).u - constant(ce->getOperand(1)).u, bitsOf(ce->getType()));
      case Instruction::ICmp: return icmp((CmpInst::Predicate)ce->getPredicate(), constant(ce->getOperand(0)), constant(ce->getOperand(1)));
      default: break;
      }
   }
   if (c->getType()->isMetadataTy() || c->getType()->isTokenTy()) { return Val::Undef(64); }
   std::string str;
   raw_string_ostream os(str);
   c->print(os);
   throw EngineError("unsupported constant " + str);
}

inline void Engine::storeConst(State &s, uint64_t a, const Constant *c)
{
   Type *t = c->getType();
   if (isa<ConstantAggregateZero>(c)) { setMem(s, a, Val::I(0, 8), DL->getTypeAllocSize(t)); return; }
   if (isa<UndefValue>(c)) { return; }
   if (auto *cd = dyn_cast<ConstantDataSequential>(c))
   {
      if (cd->getElementType()->isIntegerTy(8))
      {
         StringRef r = cd->getRawDataValues();
         Obj *o = check(s, a, r.size(), true);
         uint32_t off = (uint32_t)(a - o->addr);
         for (size_t i = 0; i < r.size(); ++i) { o->b[off + i] = (uint8_t)r[i]; o->st[off + i] = 1; }
         return;
      }
   }
   if (t->isStructTy())
   {
      const StructLayout *sl = DL->getStructLayout(cast<StructType>(t));
      for (unsigned i = 0; i < t->getStructNumElements(); ++i) { storeConst(s, a + sl->getElementOffset(i), c->getAggregateElement(i)); }
      return;
   }
   if (t->isArrayTy())
   {
      uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
      for (unsigned i = 0; i < t->getArrayNumElements(); ++i) { storeConst(s, a + i * es, c->getAggregateElement(i)); }
      return;
   }
   store(s, a, constant(c), t);
}

inline void Engine::initGlobals(State &s)
{
   for (auto &f : *M)
   {
      auto o = std::make_shared<Obj>();
      o->addr = nextAddr; o->size = 1; o->ro = true; o->kind = 'f'; o->name = f.getName().str();
      o->b.assign(1, 0); o->st.assign(1, 0);
      nextAddr += 64;
      globals[o->addr] = o;
      gaddr[&f] = o->addr;
      fnAt[o->addr] = &f;
   }
   for (auto &g : M->globals())
   {
      uint64_t sz = g.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 512;
      uint64_t a = alloc(s, std::max<uint64_t>(sz, 1), 'g', g.getName().str());
      gaddr[&g] = a;
      if (!g.hasInitializer())
      {
         Obj *o = s.mem[a].get();
         for (auto &x : o->st) { x = 1; }
         o->name = "external " + o->name;
         if (g.getName().starts_with("_ZTI"))
         {
            // type_info objects are told apart by their names
            std::string nm = g.getName().str();
            uint64_t na = alloc(s, nm.size() + 1, 'g', "name of " + nm);
            Obj *no = s.mem[na].get();
            storeBytes(no, 0, Val::I(0, 8), 1);
            for (size_t i = 0; i <= nm.size(); ++i) { storeBytes(no, (uint32_t)i, Val::I(i < nm.size() ? (unsigned char)nm[i] : 0, 8), 1); }
            storeBytes(s.mem[a].get(), 8, Val::I(na, 64), 8);
         }
      }
   }
   for (auto &g : M->globals())
   {
      if (!g.hasInitializer()) { continue; }
      if (g.getName().starts_with("llvm.")) { continue; }
      storeConst(s, gaddr[&g], g.getInitializer());
   }
   for (auto &g : M->globals())
   {
      if (g.hasInitializer() && g.isConstant())
      {
         uint64_t a = gaddr[&g];
         ObjP o = s.mem[a];
         o->ro = true;
         s.mem.erase(a);
         globals[a] = o;
      }
   }
}

// ------------------------------------------------------------------ operators
inline Val Engine::icmp(CmpInst::Predicate p, Val a, Val b)
{
   if (a.k == FPC) { a.k = INT; }
   if (b.k == FPC) { b.k = INT; }
   if (a.k == REAL && (a.r->op == RC || a.r->op == RSPECIAL)) { double d = D.dv(a.r); a = Val::I(0, 64); memcpy(&a.u, &d, 8); }
   if (b.k == REAL && (b.r->op == RC || b.r->op == RSPECIAL)) { double d = D.dv(b.r); b = Val::I(0, 64); memcpy(&b.u, &d, 8); }
   if (a.k == INT && b.k == INT)
   {
      bool r;
      switch (p)
      {
      case CmpInst::ICMP_EQ: r = a.u == b.u; break;
      case CmpInst::ICMP_NE: r = a.u != b.u; break;
      case CmpInst::ICMP_UGT: r = a.u > b.u; break;
      case CmpInst::ICMP_UGE: r = a.u >= b.u; break;
      case CmpInst::ICMP_ULT: r = a.u < b.u; break;
      case CmpInst::ICMP_ULE: r = a.u <= b.u; break;
      case CmpInst::ICMP_SGT: r = a.s() > b.s(); break;
      case CmpInst::ICMP_SGE: r = a.s() >= b.s(); break;
      case CmpInst::ICMP_SLT: r = a.s() < b.s(); break;
      case CmpInst::ICMP_SLE: r = a.s() <= b.s(); break;
      default: throw EngineError("icmp");
      }
      return Val::I(r, 1);
   }
   z3::expr x = bv(a), y = bv(b);
   switch (p)
   {
   case CmpInst::ICMP_EQ: return mkSym(x == y);
   case CmpInst::ICMP_NE: return mkSym(x != y);
   case CmpInst::ICMP_UGT: return mkSym(z3::ugt(x, y));
   case CmpInst::ICMP_UGE: return mkSym(z3::uge(x, y));
   case CmpInst::ICMP_ULT: return mkSym(z3::ult(x, y));
   case CmpInst::ICMP_ULE: return mkSym(z3::ule(x, y));
   case CmpInst::ICMP_SGT: return mkSym(z3::sgt(x, y));
   case CmpInst::ICMP_SGE: return mkSym(z3::sge(x, y));
   case CmpInst::ICMP_SLT: return mkSym(z3::slt(x, y));
   case CmpInst::ICMP_SLE: return mkSym(z3::sle(x, y));
   default: throw EngineError("icmp");
   }
}

inline Val Engine::binop(State &s, unsigned opc, Val a, Val b, Instruction *I)
{
   if (a.k == UNDEF && b.k == UNDEF) { return a; }
   if (a.k == FPC) { a.k = INT; }
   if (b.k == FPC) { b.k = INT; }
   unsigned w = a.w;
   if (a.k == INT && b.k == INT)
   {
      uint64_t x = a.u, y = b.u;
      switch (opc)
      {
      case Instruction::Add: return Val::I(x + y, w);
      case Instruction::Sub: return Val::I(x - y, w);
      case Instruction::Mul: return Val::I(x * y, w);
      case Instruction::And: return Val::I(x & y, w);
      case Instruction::Or: return Val::I(x | y, w);
      case Instruction::Xor: return Val::I(x ^ y, w);
      case Instruction::Shl: return y >= w ? Val::Undef(w) : Val::I(x << y, w);
      case Instruction::LShr: return y >= w ? Val::Undef(w) : Val::I(x >> y, w);
      case Instruction::AShr: return y >= w ? Val::Undef(w) : Val::I((uint64_t)(a.s() >> y), w);
      case Instruction::UDiv: case Instruction::URem:
         if (!y) { memError(s, "division by zero"); }
         return Val::I(opc == Instruction::UDiv ? x / y : x % y, w);
      case Instruction::SDiv: case Instruction::SRem:
         if (!y) { memError(s, "division by zero"); }
         if (b.s() == -1) { return opc == Instruction::SDiv ? Val::I(-x, w) : Val::I(0, w); }
         return Val::I((uint64_t)(opc == Instruction::SDiv ? a.s() / b.s() : a.s() % b.s()), w);
      default: throw EngineError("binop");
      }
   }
   if (w == 1)
   {
      z3::expr x = boolE(a), y = boolE(b);
      switch (opc)
      {
      case Instruction::And: return mkSym(x && y);
      case Instruction::Or: return mkSym(x || y);
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkSym(x != y);
      case Instruction::Mul: return mkSym(x && y);
      default: throw EngineError("i1 binop");
      }
   }
   z3::expr x = bv(a), y = bv(b);
   switch (opc)
   {
   case Instruction::Add: return mkSym(x + y);
   case Instruction::Sub: return mkSym(x - y);
   case Instruction::Mul: return mkSym(x * y);
   case Instruction::And: return mkSym(x & y);
   case Instruction::Or: return mkSym(x | y);
   case Instruction::Xor: return mkSym(x ^ y);
   case Instruction::Shl: return mkSym(z3::shl(x, y));
   case Instruction::LShr: return mkSym(z3::lshr(x, y));
   case Instruction::AShr: return mkSym(z3::ashr(x, y));
   default: break;
   }
   if (decide(s, y == z.bv_val(0, w))) { memError(s, "division by zero"); }
   switch (opc)
   {
   case Instruction::UDiv: return mkSym(z3::udiv(x, y));
   case Instruction::URem: return mkSym(z3::urem(x, y));
   case Instruction::SDiv: return mkSym(x / y);
   case Instruction::SRem: return mkSym(z3::srem(x, y));
   default: throw EngineError("binop " + std::string(I->getOpcodeName()));
   }
}

inline Val Engine::fbin(unsigned opc, Val a, Val b, unsigned w)
{
   if (!fpMode)
   {
      R x = rl(a), y = rl(b);
      switch (opc)
      {
      case Instruction::FAdd: return Val::Rl(D.add(x, y), w);
      case Instruction::FSub: return Val::Rl((D.sp(x) || D.sp(y)) ? D.add(x, D.mul(D.cst(-1), y)) : D.sub(x, y), w);
      case Instruction::FMul: return Val::Rl(D.mul(x, y), w);
      case Instruction::FDiv: return Val::Rl(D.div(x, y), w);
      default: throw EngineError("frem in R mode");
      }
   }
   bool ca = a.k == FPC || a.k == INT, cb = b.k == FPC || b.k == INT;
   if (ca && cb)
   {
      double x = fpc(a), y = fpc(b), r;
      switch (opc)
      {
      case Instruction::FAdd: r = w == 32 ? (float)x + (float)y : x + y; break;
      case Instruction::FSub: r = w == 32 ? (float)x - (float)y : x - y; break;
      case Instruction::FMul: r = w == 32 ? (float)x * (float)y : x * y; break;
      case Instruction::FDiv: r = w == 32 ? (float)x / (float)y : x / y; break;
      default: r = std::fmod(x, y);
      }
      return mkFpc(r, w);
   }
   z3::expr x = fp(a), y = fp(b);
   Z3_ast r;
   Z3_ast rm = Z3_mk_fpa_rne(z);
   z3::expr rme(z, rm);
   switch (opc)
   {
   case Instruction::FAdd: r = Z3_mk_fpa_add(z, rme, x, y); break;
   case Instruction::FSub: r = Z3_mk_fpa_sub(z, rme, x, y); break;
   case Instruction::FMul: r = Z3_mk_fpa_mul(z, rme, x, y); break;
   case Instruction::FDiv: r = Z3_mk_fpa_div(z, rme, x, y); break;
   default: throw EngineError("symbolic frem");
   }
   return mkFp(z3::expr(z, r), w);
}

inline Val Engine::fcmp(CmpInst::Predicate p, Val a, Val b)
{
   if (p == CmpInst::FCMP_TRUE) { return Val::I(1, 1); }
   if (p == CmpInst::FCMP_FALSE) { return Val::I(0, 1); }
   if (!fpMode)
   {
      R x = rl(a), y = rl(b);
      auto cp = [&](double u, double v) {
         bool un = std::isnan(u) || std::isnan(v);
         bool r;
         switch (p)
         {
         case CmpInst::FCMP_OEQ: r = !un && u == v; break;
         case CmpInst::FCMP_OGT: r = !un && u > v; break;
         case CmpInst::FCMP_OGE: r = !un && u >= v; break;
         case CmpInst::FCMP_OLT: r = !un && u < v; break;
         case CmpInst::FCMP_OLE: r = !un && u <= v; break;
         case CmpInst::FCMP_ONE: r = !un && u != v; break;
         case CmpInst::FCMP_ORD: r = !un; break;
         case CmpInst::FCMP_UNO: r = un; break;
         case CmpInst::FCMP_UEQ: r = un || u == v; break;
         case CmpInst::FCMP_UGT: r = un || u > v; break;
         case CmpInst::FCMP_UGE: r = un || u >= v; break;
         case CmpInst::FCMP_ULT: r = un || u < v; break;
         case CmpInst::FCMP_ULE: r = un || u <= v; break;
         default: r = un || u != v; break;
         }
         return Val::I(r, 1);
      };
      if (D.sp(x) || D.sp(y)) { return cp(D.sp(x) ? x->d : 0.0, D.sp(y) ? y->d : 0.0); }
      if (D.isC(x) && D.isC(y)) { mpq_class d = x->c - y->c; return cp(d > 0 ? 1 : d < 0 ? -1 : 0, 0); }
      if (p == CmpInst::FCMP_ORD) { return Val::I(1, 1); }
      if (p == CmpInst::FCMP_UNO) { return Val::I(0, 1); }
      if (x == y) { return cp(0, 0); }
      if (auto nf = normDiff(x, y))
      {
         R m = *nf;
         if (D.isC(m)) { return cp(m->c > 0 ? 1 : m->c < 0 ? -1 : 0, 0); }
         x = m;
         y = D.cst(0);
      }
      z3::expr u = D.toZ(x), v = D.toZ(y);
      switch (p)
      {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkSym(u == v);
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkSym(u != v);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkSym(u > v);
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkSym(u >= v);
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkSym(u < v);
      default: return mkSym(u <= v);
      }
   }
   z3::expr x = fp(a), y = fp(b);
   auto B = [&](Z3_ast t) { return z3::expr(z, t); };
   z3::expr nan = B(Z3_mk_fpa_is_nan(z, x)) || B(Z3_mk_fpa_is_nan(z, y));
   z3::expr r(z);
   switch (p)
   {
   case CmpInst::FCMP_ORD: return mkSym(!nan);
   case CmpInst::FCMP_UNO: return mkSym(nan);
   case CmpInst::FCMP_OEQ: r = B(Z3_mk_fpa_eq(z, x, y)); break;
   case CmpInst::FCMP_UEQ: r = nan || B(Z3_mk_fpa_eq(z, x, y)); break;
   case CmpInst::FCMP_ONE: r = !nan && !B(Z3_mk_fpa_eq(z, x, y)); break;
   case CmpInst::FCMP_UNE: r = !B(Z3_mk_fpa_eq(z, x, y)); break;
   case CmpInst::FCMP_OGT: r = B(Z3_mk_fpa_gt(z, x, y)); break;
   case CmpInst::FCMP_OGE: r = B(Z3_mk_fpa_geq(z, x, y)); break;
   case CmpInst::FCMP_OLT: r = B(Z3_mk_fpa_lt(z, x, y)); break;
   case CmpInst::FCMP_OLE: r = B(Z3_mk_fpa_leq(z, x, y)); break;
   case CmpInst::FCMP_UGT: r = nan || B(Z3_mk_fpa_gt(z, x, y)); break;
   case CmpInst::FCMP_UGE: r = nan || B(Z3_mk_fpa_geq(z, x, y)); break;
   case CmpInst::FCMP_ULT: r = nan || B(Z3_mk_fpa_lt(z, x, y)); break;
   default: r = nan || B(Z3_mk_fpa_leq(z, x, y)); break;
   }
   return mkSym(r);
}

inline Val Engine::castOp(State &s, unsigned opc, Val a, Type *from, Type *to)
{
   unsigned w = bitsOf(to);
   switch (opc)
   {
   case Instruction::BitCast: return conv(a, to);
   case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
      if (a.k == UNDEF) { return Val::Undef(w); }
      if (a.k == FPC) { a.k = INT; }
      if (a.k == INT) { return Val::I(a.u, w); }
      if (w == a.w) { return a; }
      if (w < a.w) { return w == 1 ? mkSym(bv(a).extract(0, 0) == z.bv_val(1, 1)) : mkSym(bv(a).extract(w - 1, 0)); }
      return mkSym(z3::zext(bv(a), w - a.w));
   case Instruction::SExt:
      if (a.k == UNDEF) { return Val::Undef(w); }
      if (a.k == INT) { return Val::I((uint64_t)a.s(), w); }
      return mkSym(z3::sext(bv(a), w - a.w));
   case Instruction::FPExt: case Instruction::FPTrunc:
      if (!fpMode) { Val v = Val::Rl(rl(a), w); return v; }
      if (a.k == FPC || a.k == INT) { return mkFpc(fpc(a), w); }
      return mkFp(z3::expr(z, Z3_mk_fpa_to_fp_float(z, z3::expr(z, Z3_mk_fpa_rne(z)), fp(a), w == 32 ? z.fpa_sort(8, 24) : z.fpa_sort(11, 53))), w);
   case Instruction::SIToFP: case Instruction::UIToFP:
   {
      if (a.k == INT)
      {
         double d = opc == Instruction::SIToFP ? (double)a.s() : (double)a.u;
         return fpMode ? mkFpc(d, w) : Val::Rl(D.fromDouble(d), w);
      }
      if (!fpMode) { uint64_t u = concretize(s, a, "int-to-real conversion"); Val c = Val::I(u, a.w); return Val::Rl(D.fromDouble(opc == Instruction::SIToFP ? (double)c.s() : (double)c.u), w); }
      z3::sort so = w == 32 ? z.fpa_sort(8, 24) : z.fpa_sort(11, 53);
      z3::expr rm(z, Z3_mk_fpa_rne(z));
      return mkFp(z3::expr(z, opc == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(z, rm, bv(a), so) : Z3_mk_fpa_to_fp_unsigned(z, rm, bv(a), so)), w);
   }
   case Instruction::FPToSI: case Instruction::FPToUI:
   {
      if (!fpMode)
      {
         R r = rl(a);
         if (r->op == RC) { mpz_class q = r->c.get_num() / r->c.get_den(); return Val::I((uint64_t)q.get_si(), w); }
         if (r->op == RSPECIAL) { return Val::Undef(w); }
         // symbolic real: concretise the integer part by forking
         for (long k = 0; k < 64; ++k)
         {
            long c = (k % 2) ? (k + 1) / 2 : -k / 2;
            z3::expr e = D.toZ(r);
            z3::expr in = c > 0 ? (e >= z.real_val((int)c) && e < z.real_val((int)(c + 1))) : c < 0 ? (e > z.real_val((int)(c - 1)) && e <= z.real_val((int)c)) : (e > -1 && e < 1);
            if (decide(s, in)) { return Val::I((uint64_t)c, w); }
         }
         throw EngineError("unbounded real-to-int conversion");
      }
      if (a.k == FPC) { double d = fpc(a); return Val::I(opc == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d, w); }
      z3::expr rm(z, Z3_mk_fpa_rtz(z));
      return mkSym(z3::expr(z, opc == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(z, rm, fp(a), w) : Z3_mk_fpa_to_ubv(z, rm, fp(a), w)));
   }
   default: throw EngineError("cast");
   }
}

inline Val Engine::gep(State &s, GEPOperator *g, const std::vector<Val> &ops)
{
   int64_t off = 0;
   std::optional<z3::expr> sym;
   unsigned i = 1;
   for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i)
   {
      Val idx = ops[i];
      if (StructType *st = it.getStructTypeOrNull())
      {
         off += DL->getStructLayout(st)->getElementOffset((unsigned)idx.u);
         continue;
      }
      int64_t es = DL->getTypeAllocSize(it.getIndexedType());
      if (idx.k == UNDEF) { throw EngineError("undefined index" + where(s)); }
      if (idx.k == FPC) { idx.k = INT; }
      if (idx.k == INT) { off += idx.s() * es; continue; }
      z3::expr x = bv(idx);
      if (idx.w < 64) { x = z3::sext(x, 64 - idx.w); }
      x = x * z.bv_val((uint64_t)es, 64);
      sym = sym ? *sym + x : x;
   }
   if (ops[0].k == INT && !sym) { return Val::I(ops[0].u + off, 64); }
   z3::expr b = bv(ops[0]) + z.bv_val((uint64_t)off, 64);
   if (sym) { b = b + *sym; }
   return mkSym(b);
}

inline Val Engine::loadAt(State &s, const Val &addr, Type *t)
{
   if (addr.k == INT) { return load(s, addr.u, t); }
   if (addr.k == UNDEF) { throw EngineError("load from undefined address" + where(s)); }
   // symbolic address into one object holding a constant table: build an ite
   z3::expr e = bv(addr);
   // find the base: smallest constant-object match through a model
   std::vector<z3::expr> as = S.slice(s.pc, e == z.bv_val(0, 64));
   if (as.empty()) { as.push_back(z.bool_val(true)); }
   if (S.rawCheck(as, S.timeoutMs, true) == SAT && t->isIntegerTy())
   {
      uint64_t u = 0;
      S.lastModel->eval(e, true).is_numeral_u64(u);
      ObjP *o = find(s, u);
      unsigned n = (bitsOf(t) + 7) / 8;
      if (o && (*o)->size <= 512)
      {
         Obj *ob = o->get();
         z3::expr lo = z.bv_val((uint64_t)ob->addr, 64), hi = z.bv_val((uint64_t)(ob->addr + ob->size - n), 64);
         if (S.check(s.pc, !(z3::uge(e, lo) && z3::ule(e, hi)), S.timeoutMs) == UNSAT)
         {
            std::optional<z3::expr> r;
            for (uint64_t a = ob->addr; a + n <= ob->addr + ob->size; ++a)
            {
               Val v = loadBytes(ob, (uint32_t)(a - ob->addr), n);
               z3::expr ve = bv(v);
               r = r ? z3::ite(e == z.bv_val(a, 64), ve, *r) : ve;
            }
            return conv(mkSym(*r), t);
         }
      }
   }
   uint64_t u = concretize(s, addr, "address");
   return load(s, u, t);
}

// ------------------------------------------------------------------ control
inline void Engine::pushCall(State &s, Function *f, const std::vector<Val> &args, const PInst *call)
{
   FuncInfo *fi = info(f);
   executed.insert(fi);
   if (s.stack.size() > 2000) { reportViolation(s, "no-endless-recursion", "abort", "stack overflow in " + fi->demangled, nullptr); throw KillPath{"stack overflow"}; }
   Frame fr;
   fr.fi = fi;
   fr.bb = fi->blocks[0].get();
   fr.regs.resize(fi->nslots);
   fr.call = call;
   unsigned n = (unsigned)f->arg_size();
   for (unsigned i = 0; i < args.size(); ++i)
   {
      if (i < n)
      {
         Argument *a = f->getArg(i);
         if (a->hasByValAttr() && args[i].k == INT)
         {
            Type *bt = a->getParamByValType();
            uint64_t sz = DL->getTypeAllocSize(bt);
            uint64_t p = alloc(s, sz, 's', "byval");
            copyMem(s, p, args[i].u, sz);
            fr.allocas.push_back(p);
            fr.regs[i] = Val::I(p, 64);
         }
         else { fr.regs[i] = args[i]; }
      }
      else { fr.varargs.push_back(args[i]); }
   }
   s.stack.push_back(std::move(fr));
}
inline void Engine::jump(State &s, BasicBlock *to)
{
   Frame &f = s.stack.back();
   ++bbs;
   BlockInfo *nb = f.fi->bmap[to];
   f.prev = f.bb;
   f.bb = nb;
   f.pc = 0;
   if (nb->nphi)
   {
      std::vector<Val> vals(nb->nphi);
      for (unsigned i = 0; i < nb->nphi; ++i)
      {
         auto *phi = cast<PHINode>(nb->ins[i].I);
         int k = phi->getBasicBlockIndex(f.prev->bb);
         const Op &o = nb->ins[i].ops[k];
         vals[i] = o.slot >= 0 ? f.regs[o.slot] : o.c;
      }
      for (unsigned i = 0; i < nb->nphi; ++i) { f.regs[nb->ins[i].slot] = vals[i]; }
      f.pc = nb->nphi;
   }
}
inline void Engine::doReturn(State &s, const Val &v)
{
   Frame &f = s.stack.back();
   for (uint64_t a : f.allocas) { s.mem.erase(a); }
   const PInst *call = f.call;
   s.stack.pop_back();
   if (s.stack.empty()) { return; }
   if (call == nullptr) { return; }
   setResult(s, *call, v);
   if (auto *iv = dyn_cast<InvokeInst>(call->I)) { jump(s, iv->getNormalDest()); }
   else { s.stack.back().pc++; }
}
// pop frames until an invoke; s.inflight is set
inline void Engine::unwind(State &s)
{
   // the current frame's current instruction is the throwing call
   while (!s.stack.empty())
   {
      Frame &f = s.stack.back();
      const PInst &pi = f.bb->ins[f.pc];
      if (auto *iv = dyn_cast<InvokeInst>(pi.I))
      {
         jump(s, iv->getUnwindDest());
         return;
      }
      for (uint64_t a : f.allocas) { s.mem.erase(a); }
      s.stack.pop_back();
   }
   reportViolation(s, "uncaught-exception", "uncaught", "exception escapes the harness", nullptr);
   throw KillPath{"uncaught exception"};
}
inline uint64_t Engine::typeBase(State &s, uint64_t ti, std::vector<std::pair<uint64_t, long>> &bases)
{
   // typeinfo object: vptr, name, ...
   ObjP *o = find(s, ti);
   if (!o) { return 0; }
   std::string nm = (*o)->name;
   if (nm.rfind("external ", 0) == 0)
   {
      static const std::map<std::string, std::string> up = {
         {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
         {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
         {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
         {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
         {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
         {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
         {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
         {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
      auto it = up.find(nm.substr(9));
      if (it != up.end())
      {
         if (auto *g = M->getNamedValue(it->second)) { bases.push_back({gaddr[g], 0}); }
         else { bases.push_back({0, 0}); }
      }
      return 0;
   }
   Val vp = load(s, ti, Type::getInt64Ty(ctx));
   ObjP *vo = find(s, vp.u);
   std::string vn = vo ? (*vo)->name : "";
   if (vn.find("__si_class_type_info") != std::string::npos) { bases.push_back({load(s, ti + 16, Type::getInt64Ty(ctx)).u, 0}); }
   else if (vn.find("__vmi_class_type_info") != std::string::npos)
   {
      uint64_t n = load(s, ti + 20, Type::getInt32Ty(ctx)).u;
      for (uint64_t i = 0; i < n; ++i)
      {
         uint64_t b = load(s, ti + 24 + 16 * i, Type::getInt64Ty(ctx)).u;
         int64_t fl = (int64_t)load(s, ti + 32 + 16 * i, Type::getInt64Ty(ctx)).u;
         long off = (long)(fl >> 8);
         if (fl & 1) { off = LONG_MIN + off; }   // virtual base: offset in vtable
         bases.push_back({b, off});
      }
   }
   return 0;
}
inline bool Engine::typeMatches(State &s, uint64_t thrown, uint64_t handler)
{
   if (handler == 0 || thrown == handler) { return true; }
   // names of external typeinfos without an object: walk with the table too
   std::vector<std::pair<uint64_t, long>> b;
   typeBase(s, thrown, b);
   for (auto &x : b) { if (x.first && typeMatches(s, x.first, handler)) { return true; } }
   // external chain through a type not declared in the module
   ObjP *t = find(s, thrown), *h = find(s, handler);
   if (t && h && (*h)->name == "external _ZTISt9exception" && (*t)->name.rfind("external _ZTISt", 0) == 0) { return true; }
   return false;
}
inline void Engine::endPath(State &s, const std::string &why)
{
   s.outcome = why;
   ended[why]++;
   ++paths;
   if (samples.size() < 4)
   {
      std::string t = "path " + std::to_string(paths) + " (" + why + "), " + std::to_string(s.pc.size()) + " path conditions";
      for (size_t i = 0; i < std::min<size_t>(s.pc.size(), 4); ++i)
      {
         std::string e = S.ex[s.pc[i]].to_string();
         for (auto &c : e) { if (c == '\n') { c = ' '; } }
         t += " | " + e.substr(0, 120);
      }
      samples.push_back(t);
   }
   if (why == "returned" && (int)traces.size() < maxTraces && !s.observed.empty())
   {
      bool real = false;
      for (auto &i : s.inputs) { real |= i.type == 'r'; }
      if (real && !s.witness) { s.witness = S.sample(s.inputs, s.pc, nullptr, 500); }
      if (real && !s.witness) { return; }
      bool model = false;
      std::vector<z3::expr> as;
      for (int i : s.pc) { if (!S.isRealCond(S.ex[i])) { as.push_back(S.ex[i]); } }
      if (!as.empty()) { if (S.rawCheck(as, S.timeoutMs, true) != SAT) { return; } model = true; }
      std::vector<std::pair<std::string, double>> obs;
      std::unordered_map<R, double> none, memo;
      for (auto &o : s.observed)
      {
         double d = NAN;
         if (o.second.k == REAL) { d = D.eval(o.second.r, s.witness ? *s.witness : none, memo); }
         else if (o.second.k == FPC) { d = fpc(o.second); }
         else if (o.second.k == INT) { d = (double)o.second.s(); }
         else if (o.second.k == SYM && model) { uint64_t u = 0; S.lastModel->eval(bv(o.second), true).is_numeral_u64(u); d = (double)Val::I(u, o.second.w).s(); }
         else { continue; }
         obs.push_back({o.first, d});
      }
      traces.push_back({assignmentOf(s, model), obs});
   }
}

inline void Engine::step(State &s)
{
   Frame &f = s.stack.back();
   const PInst &pi = f.bb->ins[f.pc];
   Instruction *I = pi.I;
   auto op = [&](unsigned k) -> Val { const Op &o = pi.ops[k]; return o.slot >= 0 ? f.regs[o.slot] : o.c; };
   auto set = [&](const Val &v) { f.regs[pi.slot] = v; f.pc++; };
   ++insts;
   ++s.steps;
   unsigned opc = I->getOpcode();
   switch (opc)
   {
   case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
   case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
   case Instruction::And: case Instruction::Or: case Instruction::Xor:
      set(binop(s, opc, op(0), op(1), I));
      return;
   case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      if (I->getType()->isVectorTy()) { throw EngineError("vector instruction" + where(s)); }
      set(fbin(opc, op(0), op(1), bitsOf(I->getType())));
      return;
   case Instruction::FNeg:
   {
      Val a = op(0);
      unsigned w = bitsOf(I->getType());
      if (!fpMode) { R r = rl(a); set(Val::Rl(D.sp(r) ? D.special(-r->d) : D.neg(r), w)); }
      else if (a.k == FPC) { set(mkFpc(-fpc(a), w)); }
      else { set(mkFp(z3::expr(z, Z3_mk_fpa_neg(z, fp(a))), w)); }
      return;
   }
   case Instruction::ICmp:
   {
      // the words of a union holding a double, compared with a null pointer
      Val a = op(0), b = op(1);
      auto pr = cast<ICmpInst>(I)->getPredicate();
      if (a.k == REAL && b.k == INT && b.u == 0 && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) && !(a.r->op == RC || a.r->op == RSPECIAL))
      {
         set(fcmp(pr == CmpInst::ICMP_EQ ? CmpInst::FCMP_OEQ : CmpInst::FCMP_UNE, a, Val::Rl(D.cst(0))));
         return;
      }
      set(icmp(pr, a, b));
      return;
   }
   case Instruction::FCmp: set(fcmp(cast<FCmpInst>(I)->getPredicate(), op(0), op(1))); return;
   case Instruction::Select:
   {
      Val c = op(0), a = op(1), b = op(2);
      if (c.k == INT) { set(c.u & 1 ? a : b); return; }
      if (c.k == UNDEF) { set(a); return; }
      if ((a.k == INT || a.k == SYM) && (b.k == INT || b.k == SYM) && !I->getType()->isPointerTy())
      {
         if (a.w == 1) { set(mkSym(z3::ite(boolE(c), boolE(a), boolE(b)))); }
         else { set(mkSym(z3::ite(boolE(c), bv(a), bv(b)))); }
         return;
      }
      if (fpMode && (a.k == FPC || a.k == SFP) && (b.k == FPC || b.k == SFP))
      {
         set(mkFp(z3::ite(boolE(c), fp(a), fp(b)), bitsOf(I->getType())));
         return;
      }
      if (a.k == REAL && b.k == REAL && a.r == b.r) { set(a); return; }
      set(decideV(s, c) ? a : b);
      return;
   }
   case Instruction::Load: set(loadAt(s, op(0), I->getType())); return;
   case Instruction::Store:
   {
      uint64_t a = concretize(s, op(1), "store address");
      store(s, a, op(0), cast<StoreInst>(I)->getValueOperand()->getType());
      f.pc++;
      return;
   }
   case Instruction::Alloca:
   {
      auto *al = cast<AllocaInst>(I);
      uint64_t n = concretize(s, op(0), "alloca size");
      uint64_t a = alloc(s, n * DL->getTypeAllocSize(al->getAllocatedType()), 's', "local " + I->getName().str());
      f.allocas.push_back(a);
      set(Val::I(a, 64));
      return;
   }
   case Instruction::GetElementPtr:
   {
      std::vector<Val> o;
      for (unsigned i = 0; i < pi.ops.size(); ++i) { o.push_back(op(i)); }
      set(gep(s, cast<GEPOperator>(I), o));
      return;
   }
   case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
   case Instruction::SExt: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP:
   case Instruction::FPToSI: case Instruction::FPToUI:
      set(castOp(s, opc, op(0), I->getOperand(0)->getType(), I->getType()));
      return;
   case Instruction::Freeze:
   {
      Val a = op(0);
      if (a.k == UNDEF && !I->getType()->isFloatingPointTy()) { a = mkSym(fresh("undef", a.w ? a.w : 64)); }
      set(a);
      return;
   }
   case Instruction::ExtractValue:
   {
      Val a = op(0);
      for (unsigned ix : cast<ExtractValueInst>(I)->getIndices())
      {
         if (a.k == UNDEF) { break; }
         a = aggs[a.e][ix];
      }
      if (a.k == UNDEF && I->getType()->isSized() && !I->getType()->isAggregateType()) { a = Val::Undef(bitsOf(I->getType())); }
      set(a);
      return;
   }
   case Instruction::InsertValue:
   {
      Val a = op(0), b = op(1);
      auto ixs = cast<InsertValueInst>(I)->getIndices();
      std::function<Val(Val, Type *, unsigned)> ins = [&](Val x, Type *t, unsigned d) -> Val {
         if (d == ixs.size()) { return b; }
         std::vector<Val> el;
         if (x.k == AGG) { el = aggs[x.e]; }
         else { el.resize(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements()); }
         Type *et = t->isStructTy() ? t->getStructElementType(ixs[d]) : t->getArrayElementType();
         el[ixs[d]] = ins(el[ixs[d]], et, d + 1);
         return mkAgg(el);
      };
      set(ins(a, I->getType(), 0));
      return;
   }
   case Instruction::Br:
   {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(s, b->getSuccessor(0)); return; }
      Val c = op(0);
      if (c.k == UNDEF) { throw EngineError("branch on undefined value" + where(s)); }
      bool t = decideV(s, c);
      jump(s, b->getSuccessor(t ? 0 : 1));
      return;
   }
   case Instruction::Switch:
   {
      auto *sw = cast<SwitchInst>(I);
      Val c = op(0);
      if (c.k == INT)
      {
         for (auto &cs : sw->cases()) { if (cs.getCaseValue()->getZExtValue() == c.u) { jump(s, cs.getCaseSuccessor()); return; } }
         jump(s, sw->getDefaultDest());
         return;
      }
      for (auto &cs : sw->cases())
      {
         if (decide(s, bv(c) == z.bv_val((uint64_t)cs.getCaseValue()->getZExtValue(), c.w))) { jump(s, cs.getCaseSuccessor()); return; }
      }
      jump(s, sw->getDefaultDest());
      return;
   }
   case Instruction::Ret:
   {
      Val v;
      if (I->getNumOperands()) { v = op(0); }
      doReturn(s, v);
      return;
   }
   case Instruction::Unreachable: throw KillPath{"unreachable"};
   case Instruction::LandingPad:
   {
      auto *lp = cast<LandingPadInst>(I);
      uint64_t sel = 0;
      bool hit = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i)
      {
         if (lp->isCatch(i))
         {
            Val c = op(i);
            if (typeMatches(s, s.inflight.ti, c.u)) { sel = c.u ? c.u : 1; hit = true; break; }
         }
         else { hit = true; break; }
      }
      if (!hit)
      {
         // no clause applies: keep unwinding from the caller
         for (uint64_t a : f.allocas) { s.mem.erase(a); }
         s.stack.pop_back();
         if (s.stack.empty()) { reportViolation(s, "uncaught-exception", "uncaught", "exception escapes the harness", nullptr); throw KillPath{"uncaught exception"}; }
         unwind(s);
         return;
      }
      // selector: low 32 bits of the typeinfo address
      set(mkAgg({Val::I(s.inflight.obj, 64), Val::I(sel, 32)}));
      return;
   }
   case Instruction::Resume:
   {
      for (uint64_t a : f.allocas) { s.mem.erase(a); }
      s.stack.pop_back();
      if (s.stack.empty()) { reportViolation(s, "uncaught-exception", "uncaught", "exception escapes the harness", nullptr); throw KillPath{"uncaught exception"}; }
      unwind(s);
      return;
   }
   case Instruction::Call: case Instruction::Invoke:
   {
      auto *cb = cast<CallBase>(I);
      std::vector<Val> args;
      unsigned na = cb->arg_size();
      Val ret;
      if (cb->isInlineAsm()) { f.pc++; return; }
      Value *cv = cb->getCalledOperand();
      Function *fn = dyn_cast<Function>(cv->stripPointerCasts());
      if (!fn)
      {
         Val a = op(I->getNumOperands() - 1);
         uint64_t u = concretize(s, a, "function pointer");
         auto it = fnAt.find(u);
         if (it == fnAt.end()) { memError(s, "call through invalid function pointer" + where(s)); }
         fn = it->second;
      }
      for (unsigned i = 0; i < na; ++i) { args.push_back(op(i)); }
      if (auto *ii = dyn_cast<IntrinsicInst>(I))
      {
         if (intrinsic(s, ii, pi, args, ret)) { if (pi.slot >= 0) { s.stack.back().regs[pi.slot] = ret; } s.stack.back().pc++; }
         return;
      }
      size_t depth = s.stack.size();
      bool handled = external(s, fn, pi, args, ret);
      if (handled)
      {
         if (s.stack.size() != depth || s.stack.back().bb->ins[s.stack.back().pc].I != I) { return; }  // unwound
         if (pi.slot >= 0) { s.stack.back().regs[pi.slot] = ret; }
         if (auto *iv = dyn_cast<InvokeInst>(I)) { jump(s, iv->getNormalDest()); }
         else { s.stack.back().pc++; }
         return;
      }
      if (fn->isDeclaration()) { throw EngineError("unmodelled external function " + llvm::demangle(fn->getName().str()) + " [" + fn->getName().str() + "]" + where(s)); }
      pushCall(s, fn, args, &pi);
      return;
   }
   case Instruction::AtomicRMW:
   {
      auto *a = cast<AtomicRMWInst>(I);
      uint64_t p = concretize(s, op(0), "address");
      Val old = load(s, p, I->getType());
      Val v = op(1);
      switch (a->getOperation())
      {
      case AtomicRMWInst::Add: store(s, p, binop(s, Instruction::Add, old, v, I), I->getType()); break;
      case AtomicRMWInst::Sub: store(s, p, binop(s, Instruction::Sub, old, v, I), I->getType()); break;
      case AtomicRMWInst::Xchg: store(s, p, v, I->getType()); break;
      default: throw EngineError("atomicrmw");
      }
      set(old);
      return;
   }
   case Instruction::Fence: f.pc++; return;
   default: throw EngineError(std::string("unsupported instruction ") + I->getOpcodeName() + where(s));
   }
}
