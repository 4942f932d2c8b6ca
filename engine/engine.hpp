// Symbolic executor over LLVM IR.
#pragma once
#include "solver.hpp"
using namespace llvm;

struct Violation
{
   std::string label, kind, detail;
   std::vector<std::pair<std::string, std::string>> assignment;  // name -> value
   int group = 0;
};
struct AssertStat { long checked = 0, discharged = 0, violated = 0, inconclusive = 0; };

struct KillPath { std::string why; };      // path ends normally (pruned)
struct Throwing { };                        // an unwind was started

struct Engine
{
   LLVMContext ctx;
   std::unique_ptr<Module> M;
   const DataLayout *DL = nullptr;
   Solver S;
   RDag &D;
   z3::context &z;
   bool fpMode = false, rawCross = false;
   std::string mode = "R";
   uint64_t nextAddr = 0x10000000;
   std::map<uint64_t, ObjP> globals;              // constant / function objects
   std::unordered_map<const GlobalValue *, uint64_t> gaddr;
   std::unordered_map<uint64_t, Function *> fnAt;
   std::unordered_map<Function *, std::unique_ptr<FuncInfo>> fis;
   std::set<FuncInfo *> executed;
   std::vector<std::vector<Val>> aggs;
   std::vector<State *> work;
   State *cur = nullptr;
   // results
   std::map<std::string, AssertStat> asserts;
   std::map<std::string, long> reached, ended;
   std::vector<Violation> violations;
   std::set<std::string> inconclusive;
   std::set<std::string> assumptions;
   long paths = 0, maxPaths = 200000, insts = 0, forks = 0, bbs = 0;
   double budget = 600;
   std::chrono::steady_clock::time_point t0;
   std::vector<std::string> samples;
   std::vector<std::pair<std::vector<std::pair<std::string, std::string>>, std::vector<std::pair<std::string, double>>>> traces;
   int maxTraces = 3;
   std::string entry;
   bool stopAtFirst = true;
   long freshCount = 0;

   Engine() : D(S.dag), z(S.z) { }

   double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

   // ------------------------------------------------------------ exprs
   z3::expr &E(const Val &v) { return S.ex[v.e]; }
   Val mkSym(const z3::expr &e0)
   {
      z3::expr e = e0.simplify();
      if (e.is_bool())
      {
         if (e.is_true()) { return Val::I(1, 1); }
         if (e.is_false()) { return Val::I(0, 1); }
         Val v; v.k = SYM; v.w = 1; v.e = S.idx(e);
         return v;
      }
      unsigned w = e.get_sort().bv_size();
      if (w <= 64 && e.is_numeral()) { uint64_t u = 0; if (e.is_numeral_u64(u)) { return w == 1 ? Val::I(u, 1) : Val::I(u, w); } }
      if (w == 1) { return mkSym(e == z.bv_val(1, 1)); }
      Val v; v.k = SYM; v.w = (uint16_t)w; v.e = S.idx(e);
      return v;
   }
   z3::expr fresh(const char *p, unsigned w)
   {
      std::string n = std::string(p) + "!" + std::to_string(freshCount++);
      return w == 1 ? z.bool_const(n.c_str()) : z.bv_const(n.c_str(), w);
   }
   z3::expr bv(const Val &v)
   {
      switch (v.k)
      {
      case INT: return z.bv_val((uint64_t)v.u, v.w);
      case SYM: return v.w == 1 ? z3::ite(E(v), z.bv_val(1, 1), z.bv_val(0, 1)) : E(v);
      case SFP: return E(v);
      case FPC: return z.bv_val((uint64_t)v.u, v.w);
      case UNDEF: { z3::expr f = fresh("undef", v.w); return v.w == 1 ? z3::ite(f, z.bv_val(1, 1), z.bv_val(0, 1)) : f; }
      case REAL:
         if (v.r->op == RC || v.r->op == RSPECIAL) { double d = D.dv(v.r); uint64_t u; memcpy(&u, &d, 8); return z.bv_val(u, 64); }
         throw EngineError("integer operation on a symbolic real");
      default: throw EngineError("bv of aggregate");
      }
   }
   z3::expr boolE(const Val &v)
   {
      if (v.k == INT) { return z.bool_val(v.u & 1); }
      if (v.k == SYM && v.w == 1) { return E(v); }
      if (v.k == UNDEF) { return fresh("undef", 1); }
      if (v.k == SYM) { return E(v) != z.bv_val(0, v.w); }
      throw EngineError("boolE");
   }
   // real / fp helpers
   R rl(const Val &v)
   {
      if (v.k == REAL) { return v.r; }
      if (v.k == UNDEF) { return newUndefReal(); }
      if (v.k == INT && v.w == 64) { double d; memcpy(&d, &v.u, 8); return D.fromDouble(d); }
      if (v.k == FPC) { return D.fromDouble(fpc(v)); }
      if (v.k == INT && v.w == 32) { float f; uint32_t x = (uint32_t)v.u; memcpy(&f, &x, 4); return D.fromDouble(f); }
      throw EngineError("real value expected");
   }
   R newUndefReal()
   {
      std::string n = "undef!" + std::to_string(freshCount++);
      R r = D.var(n);
      Input in{n, 'u', Val::Rl(r), -4, 4};
      // given a witness value so numeric evaluation stays possible
      if (cur && cur->witness)
      {
         auto w = std::make_shared<std::unordered_map<R, double>>(*cur->witness);
         (*w)[r] = S.rndIn(-4, 4);
         cur->witness = w;
      }
      return r;
   }
   static double fpc(const Val &v)
   {
      if (v.w == 32) { float f; uint32_t x = (uint32_t)v.u; memcpy(&f, &x, 4); return f; }
      double d;
      memcpy(&d, &v.u, 8);
      return d;
   }
   static Val mkFpc(double d, unsigned w = 64)
   {
      Val v;
      v.k = FPC; v.w = (uint16_t)w;
      if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); v.u = x; }
      else { memcpy(&v.u, &d, 8); }
      return v;
   }
   std::unordered_map<unsigned, int> fpOfBv;
   z3::expr fp(const Val &v)
   {
      if (v.k == FPC || v.k == INT)
      {
         z3::expr b = z.bv_val((uint64_t)v.u, v.w);
         return b.mk_from_ieee_bv(v.w == 32 ? z.fpa_sort(8, 24) : z.fpa_sort(11, 53)).simplify();
      }
      z3::expr b = v.k == UNDEF ? fresh("undef", v.w) : E(v);
      auto it = fpOfBv.find(b.id());
      if (it != fpOfBv.end()) { return S.ex[it->second]; }
      z3::expr f = b.mk_from_ieee_bv(v.w == 32 ? z.fpa_sort(8, 24) : z.fpa_sort(11, 53));
      S.ex.push_back(b);
      S.ex.push_back(f);
      fpOfBv[b.id()] = (int)S.ex.size() - 1;
      return f;
   }
   Val mkFp(const z3::expr &f0, unsigned w)
   {
      z3::expr f = f0.simplify();
      z3::expr b = f.mk_to_ieee_bv();
      z3::expr bs = b.simplify();
      uint64_t u;
      if (bs.is_numeral() && bs.is_numeral_u64(u)) { Val v; v.k = FPC; v.w = w; v.u = u; return v; }
      S.ex.push_back(b);
      S.ex.push_back(f);
      fpOfBv[b.id()] = (int)S.ex.size() - 1;
      Val v; v.k = SFP; v.w = (uint16_t)w; v.e = S.idx(b);
      return v;
   }

   // ------------------------------------------------------------ memory
   uint64_t alloc(State &s, uint64_t size, char kind, const std::string &name = "")
   {
      auto o = std::make_shared<Obj>();
      o->size = size;
      o->kind = kind;
      o->name = name;
      o->addr = nextAddr;
      nextAddr += ((size + 63) / 64 + 1) * 64;
      if (size > (1ull << 28)) { throw EngineError("allocation too large"); }
      o->b.assign(size, 0);
      o->st.assign(size, 0);
      s.mem[o->addr] = o;
      return o->addr;
   }
   ObjP *find(State &s, uint64_t a)
   {
      auto it = s.mem.upper_bound(a);
      if (it != s.mem.begin())
      {
         --it;
         if (a >= it->first && a < it->first + std::max<uint64_t>(it->second->size, 1)) { return &it->second; }
      }
      auto g = globals.upper_bound(a);
      if (g != globals.begin())
      {
         --g;
         if (a >= g->first && a < g->first + std::max<uint64_t>(g->second->size, 1)) { return &g->second; }
      }
      return nullptr;
   }
   std::string where(State &s)
   {
      std::string r;
      for (int i = (int)s.stack.size() - 1; i >= 0 && i > (int)s.stack.size() - 6; --i)
      {
         Frame &f = s.stack[i];
         unsigned pc = std::min<unsigned>(f.pc, f.bb->ins.size() - 1);
         auto &dl = f.bb->ins[pc].I->getDebugLoc();
         r += " <- " + f.fi->demangled.substr(0, 80) + (dl ? ":" + std::to_string(dl.getLine()) : "");
      }
      return r;
   }
   Obj *check(State &s, uint64_t a, uint64_t n, bool wr)
   {
      ObjP *o = find(s, a);
      if (!o || a + n > (*o)->addr + (*o)->size)
      {
         memError(s, (wr ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes" + (o ? " past " + (*o)->name + "(size " + std::to_string((*o)->size) + ")" : "") + where(s));
      }
      if (wr)
      {
         if ((*o)->ro) { memError(s, "write to constant " + (*o)->name); }
         if (o->use_count() > 1) { *o = std::make_shared<Obj>(**o); }
      }
      return o->get();
   }
   void memError(State &s, const std::string &m)
   {
      reportViolation(s, "memory-safety", "memory", m, nullptr);
      throw KillPath{"memory error"};
   }
   // split or drop cells overlapping [o,o+n)
   void clobber(Obj *o, uint32_t off, uint32_t n)
   {
      // a cell straddling the start
      uint32_t p = off;
      while (p > 0 && o->st[p] == 3) { --p; }
      if (p < off && p < o->size && o->st[p] == 2) { breakCell(o, p); }
      for (uint32_t i = off; i < off + n; ++i)
      {
         if (o->st[i] == 2)
         {
            Val &c = o->cells[i];
            if (i + c.w / 8 > off + n) { breakCell(o, i); }
            else { o->cells.erase(i); }
         }
         o->st[i] = 0;
      }
   }
   // turn one multi-byte symbolic cell into single byte cells
   void breakCell(Obj *o, uint32_t p)
   {
      Val c = o->cells[p];
      unsigned nb = c.w / 8;
      if (c.k == REAL)
      {
         if (c.r->op == RC || c.r->op == RSPECIAL)
         {
            double d = D.dv(c.r);
            memcpy(&o->b[p], &d, 8);
            for (unsigned i = 0; i < nb; ++i) { o->st[p + i] = 1; }
            o->cells.erase(p);
            return;
         }
         throw EngineError("partial access to a symbolic real");
      }
      z3::expr e = bv(c);
      o->cells.erase(p);
      for (unsigned i = 0; i < nb; ++i)
      {
         Val b = mkSym(e.extract(8 * i + 7, 8 * i));
         if (b.k == INT) { o->b[p + i] = (uint8_t)b.u; o->st[p + i] = 1; }
         else { o->cells[p + i] = b; o->st[p + i] = 2; }
      }
   }
   unsigned bitsOf(Type *t)
   {
      return (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
   }
   Val conv(Val v, Type *t)
   {
      // reinterpret a loaded / bitcast value as type t
      if (t->isDoubleTy() || t->isFloatTy())
      {
         unsigned w = t->isDoubleTy() ? 64 : 32;
         if (v.k == UNDEF) { return Val::Undef(w); }
         if (fpMode)
         {
            if (v.k == INT) { v.k = FPC; return v; }
            if (v.k == SYM) { v.k = SFP; return v; }
            return v;
         }
         if (v.k == REAL) { return v; }
         if (v.k == INT) { if (w == 64) { double d; memcpy(&d, &v.u, 8); return Val::Rl(D.fromDouble(d)); } return Val::Rl(rl(v), 32); }
         throw EngineError("symbolic integer reinterpreted as a real");
      }
      if (t->isIntegerTy() || t->isPointerTy())
      {
         if (v.k == FPC) { v.k = INT; }
         if (v.k == SFP) { v.k = SYM; return v; }
         unsigned w = bitsOf(t);
         if (v.k == INT && v.w != w) { v = Val::I(v.u, w); }
         else if (v.k == SYM && v.w != w) { v = w < v.w ? mkSym(bv(v).extract(w - 1, 0)) : mkSym(z3::zext(bv(v), w - v.w)); }
      }
      return v;
   }
   Val load(State &s, uint64_t a, Type *t)
   {
      if (auto *st = dyn_cast<StructType>(t))
      {
         const StructLayout *sl = DL->getStructLayout(st);
         std::vector<Val> v;
         for (unsigned i = 0; i < st->getNumElements(); ++i) { v.push_back(load(s, a + sl->getElementOffset(i), st->getElementType(i))); }
         return mkAgg(v);
      }
      if (auto *at = dyn_cast<ArrayType>(t))
      {
         std::vector<Val> v;
         uint64_t es = DL->getTypeAllocSize(at->getElementType());
         for (unsigned i = 0; i < at->getNumElements(); ++i) { v.push_back(load(s, a + i * es, at->getElementType())); }
         return mkAgg(v);
      }
      unsigned w = bitsOf(t);
      unsigned n = (w + 7) / 8;
      Obj *o = check(s, a, n, false);
      return conv(loadBytes(o, (uint32_t)(a - o->addr), n), t);
   }
   Val loadBytes(Obj *o, uint32_t off, unsigned n)
   {
      if (o->st[off] == 2)
      {
         Val &c = o->cells[off];
         if (c.w == n * 8u) { return c; }
      }
      bool conc = true, und = true;
      for (unsigned i = 0; i < n; ++i) { conc &= o->st[off + i] == 1; und &= o->st[off + i] == 0; }
      if (und) { return Val::Undef(n * 8); }
      if (!conc)
      {
         bool sym = false;
         for (unsigned i = 0; i < n; ++i) { sym |= o->st[off + i] >= 2; }
         if (sym)
         {
            // find enclosing cells and concatenate bytes
            z3::expr e = byteAt(o, off);
            for (unsigned i = 1; i < n; ++i) { e = z3::concat(byteAt(o, off + i), e); }
            return mkSym(e);
         }
      }
      uint64_t u = 0;
      if (n > 8)
      {
         z3::expr e = byteAt(o, off);
         for (unsigned i = 1; i < n; ++i) { e = z3::concat(byteAt(o, off + i), e); }
         return mkSym(e);
      }
      for (unsigned i = 0; i < n; ++i) { if (o->st[off + i] == 1) { u |= (uint64_t)o->b[off + i] << (8 * i); } }
      return Val::I(u, n * 8);
   }
   z3::expr byteAt(Obj *o, uint32_t p)
   {
      if (o->st[p] == 1) { return z.bv_val((uint64_t)o->b[p], 8); }
      if (o->st[p] == 0) { return fresh("undef", 8); }
      uint32_t q = p;
      while (o->st[q] == 3) { --q; }
      Val c = o->cells[q];
      z3::expr e = bv(c);
      unsigned i = p - q;
      return e.extract(8 * i + 7, 8 * i);
   }
   void store(State &s, uint64_t a, Val v, Type *t)
   {
      if (v.k == AGG || t->isAggregateType())
      {
         if (v.k == UNDEF) { return; }
         std::vector<Val> el = aggs[v.e];
         if (auto *st = dyn_cast<StructType>(t))
         {
            const StructLayout *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < el.size(); ++i) { store(s, a + sl->getElementOffset(i), el[i], st->getElementType(i)); }
         }
         else
         {
            auto *at = cast<ArrayType>(t);
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < el.size(); ++i) { store(s, a + i * es, el[i], at->getElementType()); }
         }
         return;
      }
      unsigned n = (bitsOf(t) + 7) / 8;
      Obj *o = check(s, a, n, true);
      storeBytes(o, (uint32_t)(a - o->addr), v, n);
   }
   void storeBytes(Obj *o, uint32_t off, Val v, unsigned n)
   {
      clobber(o, off, n);
      if (v.k == UNDEF) { return; }
      if (v.k == INT || v.k == FPC)
      {
         for (unsigned i = 0; i < n; ++i) { o->b[off + i] = i < 8 ? (uint8_t)(v.u >> (8 * i)) : 0; o->st[off + i] = 1; }
         return;
      }
      if (v.k == SYM && v.w != n * 8)
      {
         v = mkSym(z3::zext(bv(v), n * 8 - v.w));
         if (v.k == INT) { storeBytes(o, off, v, n); return; }
      }
      v.w = (uint16_t)(n * 8);
      o->cells[off] = v;
      o->st[off] = 2;
      for (unsigned i = 1; i < n; ++i) { o->st[off + i] = 3; }
   }
   void copyMem(State &s, uint64_t d, uint64_t a, uint64_t n)
   {
      if (n == 0 || d == a) { return; }
      Obj *so = check(s, a, n, false);
      ObjP keep = *find(s, a);   // keep the source alive / unmodified
      Obj *dobj = check(s, d, n, true);
      so = keep.get();
      uint32_t soff = (uint32_t)(a - so->addr), doff = (uint32_t)(d - dobj->addr);
      // gather first (memmove semantics)
      struct Piece { uint8_t st, b; Val v; unsigned len; };
      std::vector<std::pair<uint32_t, Piece>> ps;
      for (uint32_t i = 0; i < n;)
      {
         uint8_t st = so->st[soff + i];
         if (st == 2)
         {
            Val c = so->cells[soff + i];
            unsigned len = c.w / 8;
            if (i + len <= n) { ps.push_back({i, Piece{2, 0, c, len}}); i += len; continue; }
         }
         if (st >= 2)
         {
            Val b = mkSym(byteAt(so, soff + i));
            if (b.k == INT) { ps.push_back({i, Piece{1, (uint8_t)b.u, Val(), 1}}); }
            else { ps.push_back({i, Piece{2, 0, b, 1}}); }
            ++i;
            continue;
         }
         ps.push_back({i, Piece{st, so->b[soff + i], Val(), 1}});
         ++i;
      }
      clobber(dobj, doff, (uint32_t)n);
      for (auto &p : ps)
      {
         uint32_t q = doff + p.first;
         if (p.second.st == 1) { dobj->b[q] = p.second.b; dobj->st[q] = 1; }
         else if (p.second.st == 2)
         {
            dobj->cells[q] = p.second.v;
            dobj->st[q] = 2;
            for (unsigned i = 1; i < p.second.len; ++i) { dobj->st[q + i] = 3; }
         }
      }
   }
   void setMem(State &s, uint64_t d, Val v, uint64_t n)
   {
      if (n == 0) { return; }
      Obj *o = check(s, d, n, true);
      uint32_t off = (uint32_t)(d - o->addr);
      clobber(o, off, (uint32_t)n);
      for (uint64_t i = 0; i < n; ++i)
      {
         if (v.k == INT) { o->b[off + i] = (uint8_t)v.u; o->st[off + i] = 1; }
         else if (v.k != UNDEF) { o->cells[(uint32_t)(off + i)] = v; o->st[off + i] = 2; }
      }
   }
   std::string readStr(State &s, uint64_t a)
   {
      std::string r;
      for (;; ++a)
      {
         Obj *o = check(s, a, 1, false);
         Val v = loadBytes(o, (uint32_t)(a - o->addr), 1);
         if (v.k != INT) { throw EngineError("symbolic label string"); }
         if (!v.u) { return r; }
         r += (char)v.u;
      }
   }
   Val mkAgg(const std::vector<Val> &v)
   {
      aggs.push_back(v);
      Val x; x.k = AGG; x.e = (int)aggs.size() - 1;
      return x;
   }

   // ------------------------------------------------------- path decisions
   void addPc(State &s, const z3::expr &e0)
   {
      z3::expr e = e0.simplify();
      if (e.is_true()) { return; }
      if (e.is_app() && e.decl().decl_kind() == Z3_OP_AND)
      {
         for (unsigned i = 0; i < e.num_args(); ++i) { addPc(s, e.arg(i)); }
         return;
      }
      int id = S.idx(e);
      for (int p : s.pc) { if (p == id) { return; } }
      s.pc.push_back(id);
   }
   void fixWitness(State &s, const z3::expr &cond, bool haveModel)
   {
      // cond was just added to s.pc
      if (s.witness && S.satisfies(*s.witness, {}, &cond)) { return; }
      if (!S.isRealCond(cond)) { return; }
      auto old = s.witness;
      s.witness = S.sample(s.inputs, s.pc, &cond, 40);
      if (!s.witness && old) { s.witness = S.perturb(*old, s.inputs, s.pc, &cond, 60); }
      if (!s.witness && haveModel && S.lastModel)
      {
         auto m = S.fromModel(s.inputs);
         // variables the model leaves free keep the old witness values
         if (old) { for (auto &kv : *old) { m->emplace(kv.first, kv.second); } }
         if (S.satisfies(*m, s.pc, &cond)) { s.witness = m; }
      }
   }
   bool decide(State &s, const z3::expr &c0)
   {
      z3::expr c = c0.simplify();
      if (c.is_true()) { return true; }
      if (c.is_false()) { return false; }
      auto k = s.known.find(c.id());
      if (k != s.known.end()) { return k->second; }
      z3::expr nc = (!c).simplify();
      bool feasT, feasF;
      bool real = S.isRealCond(c);
      std::optional<bool> w;
      if (real && s.witness)
      {
         Solver::Env env{s.witness.get(), {}};
         w = S.evB(c, env);
      }
      bool modelF = false, modelT = false;
      if (w && *w) { feasT = true; }
      else
      {
         feasT = (w && !*w && S.sample(s.inputs, s.pc, &c, 3)) ? true : S.check(s.pc, c, S.branchTimeoutMs) != UNSAT;
      }
      if (w && !*w) { feasF = true; }
      else { feasF = !feasT ? true : (w && *w && S.sample(s.inputs, s.pc, &nc, 3)) ? true : S.check(s.pc, nc, S.branchTimeoutMs) != UNSAT; }
      (void)modelF; (void)modelT;
      S.ex.push_back(c);
      if (feasT && feasF)
      {
         ++forks;
         auto *t = new State(s);
         t->known[c.id()] = false;
         addPc(*t, nc);
         fixWitness(*t, nc, false);
         work.push_back(t);
         s.known[c.id()] = true;
         addPc(s, c);
         fixWitness(s, c, false);
         return true;
      }
      s.known[c.id()] = feasT;
      if (!feasT && !feasF) { throw KillPath{"infeasible"}; }
      // the implied condition is not added to pc: it follows from it
      return feasT;
   }
   bool decideV(State &s, const Val &v)
   {
      if (v.k == INT) { return v.u & 1; }
      return decide(s, boolE(v));
   }
   // concrete value of v on this path, forking over all feasible values
   uint64_t concretize(State &s, const Val &v, const char *what)
   {
      if (v.k == INT) { return v.u; }
      if (v.k == FPC) { return v.u; }
      if (v.k == UNDEF) { throw EngineError(std::string("undefined value used as ") + what + where(s)); }
      if (v.k == REAL)
      {
         if (v.r->op == RC || v.r->op == RSPECIAL) { double d = D.dv(v.r); uint64_t u; memcpy(&u, &d, 8); return u; }
         throw EngineError(std::string("symbolic real used as ") + what + where(s));
      }
      z3::expr e = bv(v);
      for (int i = 0; i < 300; ++i)
      {
         std::vector<z3::expr> as;
         as = S.slice(s.pc, e == e.ctx().bv_val(0, e.get_sort().bv_size()));
         if (as.empty()) { as.push_back(z.bool_val(true)); }
         Res r = S.rawCheck(as, S.timeoutMs, true);
         if (r == UNSAT) { throw KillPath{"infeasible"}; }
         if (r == UNKNOWN) { throw EngineError("concretize: solver unknown"); }
         z3::expr m = S.lastModel->eval(e, true);
         uint64_t u = 0;
         if (!m.is_numeral_u64(u)) { throw EngineError("concretize"); }
         if (decide(s, e == z.bv_val(u, v.w))) { return u; }
      }
      throw EngineError(std::string("too many values for ") + what);
   }

   // A polynomial with the sign of x - y, when the normal form is short.
   std::optional<R> normDiff(R x, R y)
   {
      auto poly = [&](R n) {
         std::vector<R> w{n};
         std::unordered_set<R> seen;
         while (!w.empty())
         {
            R t = w.back();
            w.pop_back();
            if (!seen.insert(t).second) { continue; }
            if (t->op != RC && t->op != RV && t->op != RADD && t->op != RMUL) { return false; }
            for (R c : t->a) { w.push_back(c); }
         }
         return seen.size() < 60;
      };
      if (poly(x) && poly(y)) { return std::nullopt; }
      auto t0 = std::chrono::steady_clock::now();
      std::optional<R> out;
      size_t keep = D.maxTerms;
      D.maxTerms = 1500;
      try
      {
         R d = D.sub(x, y);
         const RDag::RF &f = D.rf(d);
         RDag::Scaled scaled;
         RDag::Poly n = D.zeroPoly(d, &scaled);
         if (n.empty()) { out = D.cst(0); }
         else if (n.size() <= 24 && n.size() == f.num.size())
         {
            size_t sz = n.size();
            mpq_class c;
            RDag::Mono m;
            RDag::Poly prim;
            D.split(n, c, m, prim);
            std::vector<std::decay_t<decltype(f.den.begin()->first)>> dens;
            R r = D.cst(c > 0 ? 1 : -1);
            auto mulSign = [&](const RDag::Poly &p, int e) {
               if (D.posPoly(p, true)) { return; }
               R q = D.polyNode(p);
               for (int i = 0; i < (e % 2 ? 1 : 2); ++i) { r = D.mul(r, q); }
            };
            for (auto &a : m) { RDag::Poly q; q[RDag::Mono{{a.first, 1}}] = 1; mulSign(q, a.second); }
            if (!(prim.size() == 1 && prim.begin()->first.empty())) { mulSign(prim, 1); }
            // a denominator is non-zero: even powers do not matter
            for (auto &a : f.den)
            {
               sz += D.factors[a.first].size();
               if (!D.posPoly(D.factors[a.first], true)) { dens.push_back(a.first); }
               if (a.second % 2) { mulSign(D.factors[a.first], 1); }
            }
            // so is what the numerator was multiplied with
            std::vector<RDag::Poly> mult;
            for (auto &a : scaled)
            {
               if (D.posPoly(a.first, true)) { continue; }
               sz += a.first.size();
               mult.push_back(a.first);
               if (a.second % 2) { mulSign(a.first, 1); }
            }
            if (sz <= 40)
            {
               out = r;
               for (auto &q : mult) { if (cur) { addPc(*cur, D.toZ(D.polyNode(q)) != 0); } }
               // the sign of the product is that of the quotient where it is defined
               for (auto f : dens) { if (cur) { addPc(*cur, D.toZ(D.polyNode(D.factors[f])) != 0); } }
            }
         }
      }
      catch (NormalFormTooLarge &) { }
      catch (std::runtime_error &) { }
      D.maxTerms = keep;
      S.tnorm += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      return out;
   }
   z3::expr negCond(R x)
   {
      if (auto n = normDiff(x, D.cst(0))) { return D.toZ(*n) < 0; }
      return D.toZ(x) < 0;
   }

   // ------------------------------------------------------ assertions
   std::vector<std::pair<std::string, std::string>> assignmentOf(State &s, bool haveModel)
   {
      std::vector<std::pair<std::string, std::string>> r;
      char buf[64];
      for (auto &i : s.inputs)
      {
         if (i.type == 'u') { continue; }
         if (i.type == 'r')
         {
            double d = 0;
            if (s.witness) { auto f = s.witness->find(i.v.r); d = f == s.witness->end() ? 0 : f->second; }
            snprintf(buf, sizeof buf, "%a", d);
         }
         else if (i.v.k == INT || i.v.k == FPC)
         {
            if (i.type == 'd') { snprintf(buf, sizeof buf, "bits:%llx", (unsigned long long)i.v.u); }
            else { snprintf(buf, sizeof buf, "%lld", (long long)i.v.s()); }
         }
         else
         {
            uint64_t u = 0;
            if (haveModel && S.lastModel) { z3::expr m = S.lastModel->eval(bv(i.v), true); m.is_numeral_u64(u); }
            if (i.type == 'd') { snprintf(buf, sizeof buf, "bits:%llx", (unsigned long long)u); }
            else { snprintf(buf, sizeof buf, "%lld", (long long)Val::I(u, i.v.w).s()); }
         }
         r.push_back({i.name, buf});
      }
      return r;
   }
   // record a violation on this path (cond: extra condition to satisfy)
   int violationGroups = 0;
   void reportViolation(State &s, const std::string &label, const std::string &kind, const std::string &detail, const z3::expr *cond)
   {
      bool real = false, model = false;
      for (auto &i : s.inputs) { real |= i.type == 'r'; }
      if (real && (!s.witness || (cond && !S.satisfies(*s.witness, s.pc, cond))))
      {
         auto old = s.witness;
         auto w = S.sample(s.inputs, s.pc, cond, 4000);
         if (!w && old) { w = S.perturb(*old, s.inputs, s.pc, cond, 2000); }
         if (!w)
         {
            std::vector<int> pc;
            for (int i : s.pc) { if (S.isRealCond(S.ex[i])) { pc.push_back(i); } }
            if (S.check(pc, cond ? *cond : z.bool_val(true) && z.real_const("vf!0") == 0, S.timeoutMs, true) == SAT)
            {
               w = S.fromModel(s.inputs);
            }
         }
         if (!w)
         {
            // the path itself may be infeasible (over-approximated branch)
            std::vector<int> pc;
            for (int i : s.pc) { if (S.isRealCond(S.ex[i])) { pc.push_back(i); } }
            Res r = S.check(pc, cond ? *cond : z.real_const("vf!0") == 0, S.timeoutMs, true);
            if (r == UNSAT) { return; }
            asserts[label].inconclusive++;
            inconclusive.insert(label + ": no concrete point found (" + detail + ")");
            return;
         }
         s.witness = w;
      }
      // model for the non-real inputs
      std::vector<z3::expr> as;
      for (int i : s.pc) { if (!S.isRealCond(S.ex[i])) { as.push_back(S.ex[i]); } }
      if (cond && !S.isRealCond(*cond)) { as.push_back(*cond); }
      if (!as.empty())
      {
         Res r = S.rawCheck(as, S.timeoutMs * 3, true);
         if (r == UNSAT) { return; }
         if (r == UNKNOWN)
         {
            asserts[label].inconclusive++;
            inconclusive.insert(label + ": solver unknown (" + detail + ")");
            return;
         }
         model = true;
      }
      asserts[label].violated++;
      if (getenv("SYMEX_DEBUG"))
      {
         fprintf(stderr, "VIOLATED %s\n", label.c_str());
         for (int i : s.pc)
         {
            bool ok = !s.witness || S.satisfies(*s.witness, std::vector<int>{i}, nullptr);
            fprintf(stderr, "  pc%s: %.600s\n", ok ? "" : " (not met by the witness)", Z3_ast_to_string(z, S.ex[i]));
         }
      }
      if (violations.size() < 60)
      {
         int group = ++violationGroups;
         violations.push_back({label, kind, detail, assignmentOf(s, model), group});
         // further points of the same violation, with short numbers: rounding
         // may hide one of them in the native replay
         if (real && kind != "assert_eq")
         {
            auto keep = s.witness;
            S.coarse = true;
            for (int t = 0; t < 8; ++t)
            {
               auto w = S.sample(s.inputs, s.pc, cond, 200);
               if (!w) { break; }
               s.witness = w;
               violations.push_back({label, kind, detail, assignmentOf(s, model), group});
            }
            S.coarse = false;
            s.witness = keep;
         }
      }
   }
   void assertBool(State &s, const Val &v, const std::string &label)
   {
      auto &st = asserts[label];
      st.checked++;
      if (v.k == INT)
      {
         if (v.u & 1) { st.discharged++; return; }
         reportViolation(s, label, "assert", "assertion is false on this path", nullptr);
         return;
      }
      z3::expr c = boolE(v), nc = (!c).simplify();
      auto kn = s.known.find(c.simplify().id());
      if (kn != s.known.end() && kn->second) { st.discharged++; return; }
      // a concrete violating point is quicker to find than a proof is to fail
      if (S.isRealCond(nc))
      {
         bool hit = s.witness && S.satisfies(*s.witness, s.pc, &nc);
         if (!hit) { auto w = S.sample(s.inputs, s.pc, &nc, 30); if (w) { s.witness = w; hit = true; } }
         if (hit) { reportViolation(s, label, "assert", "", &nc); return; }
      }
      Res r = S.check(s.pc, nc, S.timeoutMs);
      if (r == UNSAT) { st.discharged++; return; }
      if (r == UNKNOWN && S.isRealCond(nc) && normCheck(s, nc)) { st.discharged++; return; }
      if (r == SAT && S.isRealCond(nc) && S.lastModel) { fixWitnessModel(s, nc); }
      long before = st.violated + st.inconclusive;
      reportViolation(s, label, "assert", "", &nc);
      if (st.violated + st.inconclusive == before) { st.discharged++; }
   }
   void fixWitnessModel(State &s, const z3::expr &nc)
   {
      auto old = s.witness;
      auto m = S.fromModel(s.inputs);
      if (S.satisfies(*m, s.pc, &nc)) { s.witness = m; }
   }
   // retry an inequality with atoms normalised
   bool normCheck(State &s, const z3::expr &nc)
   {
      (void)s; (void)nc;
      return false;
   }
   void assertEq(State &s, const Val &a, const Val &b, const std::string &label, double scale)
   {
      auto &st = asserts[label];
      st.checked++;
      if (fpMode) { throw EngineError("sym_assert_eq in FP mode"); }
      R x = rl(a), y = rl(b);
      R d = (D.sp(x) || D.sp(y)) ? (x == y ? D.cst(0) : D.special(NAN)) : D.sub(x, y);
      if (D.sp(d)) { reportViolation(s, label, "assert_eq", "non-finite value", nullptr); return; }
      if (D.isC(d, 0)) { st.discharged++; ++S.nnorm; return; }
      // numeric screening at the witness
      auto clearlyDifferent = [&](const std::unordered_map<R, double> &w) {
         std::unordered_map<R, double> memo;
         double u = D.eval(x, w, memo), v = D.eval(y, w, memo);
         if (std::isnan(u) || std::isnan(v)) { return false; }
         return std::fabs(u - v) > 1e-6 * std::max({std::fabs(u), std::fabs(v), scale});
      };
      if (s.witness || s.inputs.empty())
      {
         std::unordered_map<R, double> none;
         const auto &w = s.witness ? *s.witness : none;
         if (clearlyDifferent(w)) { reportViolation(s, label, "assert_eq", "", nullptr); return; }
      }
      auto t0 = std::chrono::steady_clock::now();
      RDag::Poly p;
      bool have = false;
      R xs, ys;
      if (D.abstractSums(x, y, xs, ys))
      {
         // the shared sums as variables: what remains is often small
         const size_t limit = D.maxTerms;
         D.maxTerms = 20000;
         bool zero = false;
         try { R e = D.sub(xs, ys); zero = !D.sp(e) && (D.isC(e, 0) || D.zeroPoly(e).empty()); }
         catch (std::runtime_error &) { }
         D.maxTerms = limit;
         if (zero) { S.tnorm += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); ++S.nnorm; st.discharged++; return; }
      }
      try { p = D.zeroPoly(d); have = true; }
      catch (NormalFormTooLarge &) { inconclusiveNote = "normal form too large"; }
      catch (std::runtime_error &e) { inconclusiveNote = e.what(); }
      S.tnorm += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (have)
      {
         ++S.nnorm;
         z3::expr q = z.bool_val(false);
         if (!p.empty() && p.size() < 4000) { q = D.toZ(D.polyNode(p)) != 0; }
         if (p.empty())
         {
            st.discharged++;
            if (rawCross)
            {
               ++S.ncross;
               Res r = S.check(s.pc, D.toZ(x) != D.toZ(y), 3000);
               if (r == UNSAT) { ++S.ncrossOk; }
               if (r == SAT && S.lastModel)
               {
                  // a model of the un-normalised query must be refuted numerically
                  auto m = S.fromModel(s.inputs);
                  if (S.satisfies(*m, s.pc, nullptr) && clearlyDifferent(*m)) { st.discharged--; st.inconclusive++; inconclusive.insert(label + ": z3 disagrees with the normal form"); }
               }
            }
            return;
         }
         Res r = p.size() < 4000 ? S.check(s.pc, q, S.timeoutMs) : UNKNOWN;
         if (r == UNSAT) { st.discharged++; return; }
      }
      z3::expr ne = D.toZ(x) != D.toZ(y);
      Res r = S.check(s.pc, ne, S.timeoutMs);
      if (r == UNSAT) { st.discharged++; return; }
      // look for a point with a clear difference
      for (int t = 0; t < 300; ++t)
      {
         auto w = S.sample(s.inputs, s.pc, nullptr, 3);
         if (!w && s.witness) { w = S.perturb(*s.witness, s.inputs, s.pc, nullptr, 3); }
         if (w && clearlyDifferent(*w)) { s.witness = w; reportViolation(s, label, "assert_eq", "", nullptr); return; }
      }
      if (r == SAT && S.lastModel)
      {
         Res r2 = S.check(s.pc, ne, S.timeoutMs, true);
         if (r2 == SAT) { auto m = S.fromModel(s.inputs); if (clearlyDifferent(*m)) { s.witness = m; reportViolation(s, label, "assert_eq", "", nullptr); return; } }
      }
      if (!s.inputs.empty() && !s.witness && S.check(s.pc, z.real_const("vf!0") == 0, S.timeoutMs, true) == UNSAT) { st.discharged++; return; }
      st.inconclusive++;
      inconclusive.insert(label + ": equality neither proved nor refuted (" + inconclusiveNote + " residual terms " + std::to_string(p.size()) + ")" );
      if (getenv("SYMEX_DEBUG")) { std::cerr << "INCONCLUSIVE " << label << "\n  x=" << D.str(x, 12) << "\n  y=" << D.str(y, 12) << "\n"; if (have && p.size() < 100) { std::cerr << " residual " << D.str(D.polyNode(p), 30) << "\n"; for (size_t i = 0; i < D.atoms.size(); ++i) { if (D.atoms[i]->op != RV) { std::cerr << "   atom " << D.str(D.atoms[i], 8) << "\n"; } } } }
   }
   // |a - b| <= tol, decided without forking: by bounding the normal form over
   // the box of the inputs, otherwise by the solver on the normal form
   void assertNear(State &s, const Val &a, const Val &b, R tol, const std::string &label)
   {
      auto &st = asserts[label];
      st.checked++;
      if (fpMode) { throw EngineError("sym_assert_near in FP mode"); }
      R x = rl(a), y = rl(b);
      R d = (D.sp(x) || D.sp(y)) ? (x == y ? D.cst(0) : D.special(NAN)) : D.sub(x, y);
      if (D.sp(d)) { reportViolation(s, label, "assert_eq", "non-finite value", nullptr); return; }
      if (D.isC(d, 0)) { st.discharged++; ++S.nnorm; return; }
      R e = d;
      auto t0 = std::chrono::steady_clock::now();
      try
      {
         const RDag::RF f = D.rf(d);
         std::unordered_map<R, std::pair<double, double>> box;
         for (auto &i : s.inputs) { if (i.type == 'r' && i.boxed) { box[i.v.r] = {i.blo, i.bhi}; } }
         // range of a polynomial over the box, monomial by monomial
         auto range = [&](const RDag::Poly &p, mpq_class &plo, mpq_class &phi)
         {
            plo = phi = 0;
            for (auto &t : p)
            {
               mpq_class lo = 1, hi = 1;
               for (auto &f2 : t.first)
               {
                  R at = D.atoms[f2.first];
                  auto it = box.find(at);
                  const bool trig = at->op == RSIN || at->op == RCOS;
                  if (it == box.end() && !trig) { return false; }
                  mpq_class l = trig ? -1.0 : it->second.first, h = trig ? 1.0 : it->second.second, pl = 1, ph = 1;
                  for (int k = 0; k < f2.second; ++k) { pl *= l; ph *= h; }
                  if (f2.second % 2 == 0 && l < 0)
                  {
                     if (h < 0) { std::swap(pl, ph); }
                     else { if (pl > ph) { ph = pl; } pl = 0; }
                  }
                  mpq_class q[4] = {lo * pl, lo * ph, hi * pl, hi * ph};
                  lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4);
               }
               lo *= t.second; hi *= t.second;
               if (lo > hi) { std::swap(lo, hi); }
               plo += lo; phi += hi;
            }
            return true;
         };
         // how small the denominator can be
         mpq_class den = 1;
         bool ok = true;
         for (auto &g : f.den)
         {
            mpq_class l, h;
            if (!range(D.factors[g.first], l, h) || (l <= 0 && h >= 0)) { ok = false; break; }
            mpq_class m = l > 0 ? l : mpq_class(-h);
            for (int k = 0; k < g.second; ++k) { den *= m; }
         }
         if (ok)
         {
            RDag::Poly p = D.reduceEager(f.num);
            mpq_class l, h;
            ok = range(p, l, h);
            mpq_class bound = std::max(mpq_class(abs(l)), mpq_class(abs(h))) / den;
            if (ok && tol->op == RC && bound <= tol->c)
            {
               st.discharged++; ++S.nnorm;
               S.tnorm += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
               return;
            }
            if (getenv("SYMEX_DEBUG")) { std::cerr << "NEAR " << label << " ok=" << ok << " bound " << bound.get_d() << " den " << den.get_d() << " terms " << p.size() << "\n"; }
            if (f.den.empty()) { e = D.polyNode(p); }
         }
      }
      catch (NormalFormTooLarge &) { }
      catch (std::runtime_error &) { }
      S.tnorm += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      st.checked--;
      z3::expr ze = D.toZ(e), zt = D.toZ(tol);
      Val v; v.k = SYM; v.w = 1; v.e = S.idx(ze <= zt && ze >= -zt);
      assertBool(s, v, label);
   }
   std::string inconclusiveNote;

   // implemented in exec.hpp / externs.hpp
   void loadModule(const std::string &path, const std::string &entry);
   FuncInfo *info(Function *f);
   Val constant(const Constant *c);
   void initGlobals(State &s);
   void storeConst(State &s, uint64_t a, const Constant *c);
   void runState(State *s);
   void step(State &s);
   void pushCall(State &s, Function *f, const std::vector<Val> &args, const PInst *call);
   void doReturn(State &s, const Val &v);
   void setResult(State &s, const PInst &pi, const Val &v) { if (pi.slot >= 0) { s.stack.back().regs[pi.slot] = v; } }
   void jump(State &s, BasicBlock *to);
   bool external(State &s, Function *f, const PInst &pi, std::vector<Val> &args, Val &ret);
   bool intrinsic(State &s, IntrinsicInst *ii, const PInst &pi, std::vector<Val> &args, Val &ret);
   void unwind(State &s);
   bool typeMatches(State &s, uint64_t thrown, uint64_t handler);
   Val binop(State &s, unsigned opc, Val a, Val b, Instruction *I);
   Val fbin(unsigned opc, Val a, Val b, unsigned w);
   Val fcmp(CmpInst::Predicate p, Val a, Val b);
   Val icmp(CmpInst::Predicate p, Val a, Val b);
   Val math1(const std::string &n, Val a, unsigned w);
   Val castOp(State &s, unsigned opc, Val a, Type *from, Type *to);
   Val gep(State &s, GEPOperator *g, const std::vector<Val> &ops);
   Val loadAt(State &s, const Val &addr, Type *t);
   void endPath(State &s, const std::string &why);
   uint64_t typeBase(State &s, uint64_t ti, std::vector<std::pair<uint64_t, long>> &bases);
   void run();
   void writeJson(const std::string &path);
};
