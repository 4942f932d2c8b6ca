// Solver-based bounded checker: symbolic execution of LLVM IR with z3.
#include "externs.hpp"
static std::string js(const std::string &s)
{
   std::string r = "\"";
   for (unsigned char c : s)
   {
      if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else { r += (char)c; }
   }
   return r + "\"";
}
static std::string jnum(double d)
{
   if (!std::isfinite(d)) { return std::isnan(d) ? "\"nan\"" : d > 0 ? "\"inf\"" : "\"-inf\""; }
   char b[64];
   snprintf(b, sizeof b, "%.17g", d);
   return b;
}
int main(int argc, char **argv)
{
   std::string file, entry, out, err;
   Engine e;
   for (int i = 1; i < argc; ++i)
   {
      std::string a = argv[i];
      auto next = [&]() { return std::string(argv[++i]); };
      if (a == "--entry") { entry = next(); }
      else if (a == "--mode") { e.mode = next(); e.fpMode = e.mode == "FP"; e.S.inProcess = e.fpMode; }
      else if (a == "--out") { out = next(); }
      else if (a == "--seed") { e.S.seed = std::stoull(next()); }
      else if (a == "--budget") { e.budget = std::stod(next()); }
      else if (a == "--timeout") { e.S.timeoutMs = std::stoi(next()); }
      else if (a == "--branch-timeout") { e.S.branchTimeoutMs = std::stoi(next()); }
      else if (a == "--max-paths") { e.maxPaths = std::stol(next()); }
      else if (a == "--ieee") { e.D.ieee = true; e.assumptions.insert("operations on concrete operands are IEEE double arithmetic, as on the machine; operations on symbolic operands are exact"); }
      else if (a == "--cross") { e.rawCross = true; }
      else if (a == "--all") { e.stopAtFirst = false; }
      else { file = a; }
   }
   try
   {
      e.loadModule(file, entry);
      e.run();
   }
   catch (EngineError &x) { err = x.what(); }
   catch (z3::exception &x) { err = std::string("z3: ") + x.msg(); }
   catch (std::exception &x) { err = std::string("exception: ") + x.what(); }
   std::ostringstream o;
   o << "{\"entry\":" << js(entry) << ",\"mode\":" << js(e.mode) << ",\"error\":" << js(err);
   o << ",\"paths\":" << e.paths << ",\"forks\":" << e.forks << ",\"instructions\":" << e.insts << ",\"blocks\":" << e.bbs;
   o << ",\"queries\":" << e.S.nq << ",\"unsat\":" << e.S.nunsat << ",\"sat\":" << e.S.nsat << ",\"unknown\":" << e.S.nunk;
   o << ",\"cached\":" << e.S.ncache << ",\"normalised\":" << e.S.nnorm << ",\"cross\":" << e.S.ncross << ",\"cross_ok\":" << e.S.ncrossOk;
   o << ",\"samples_tried\":" << e.S.nsample;
   o << ",\"solver_s\":" << jnum(e.S.tsolve) << ",\"norm_s\":" << jnum(e.S.tnorm) << ",\"max_query_s\":" << jnum(e.S.maxq) << ",\"wall_s\":" << jnum(e.elapsed());
   o << ",\"asserts\":{";
   bool first = true;
   for (auto &a : e.asserts)
   {
      o << (first ? "" : ",") << js(a.first) << ":{\"checked\":" << a.second.checked << ",\"discharged\":" << a.second.discharged << ",\"violated\":" << a.second.violated << ",\"inconclusive\":" << a.second.inconclusive << "}";
      first = false;
   }
   auto mp = [&](const char *k, std::map<std::string, long> &m) {
      o << "},\"" << k << "\":{";
      bool f = true;
      for (auto &x : m) { o << (f ? "" : ",") << js(x.first) << ":" << x.second; f = false; }
   };
   mp("reached", e.reached);
   mp("ended", e.ended);
   o << "},\"inconclusive\":[";
   first = true;
   for (auto &x : e.inconclusive) { o << (first ? "" : ",") << js(x); first = false; }
   o << "],\"assumptions\":[";
   first = true;
   for (auto &x : e.assumptions) { o << (first ? "" : ",") << js(x); first = false; }
   o << "],\"samples\":[";
   first = true;
   for (auto &x : e.samples) { o << (first ? "" : ",") << js(x); first = false; }
   o << "],\"functions\":[";
   first = true;
   std::set<std::string> fn;
   for (auto *f : e.executed) { if (f->repo) { fn.insert(f->demangled); } }
   for (auto &x : fn) { o << (first ? "" : ",") << js(x); first = false; }
   o << "],\"traces\":[";
   first = true;
   for (auto &t : e.traces)
   {
      o << (first ? "" : ",") << "{\"inputs\":{";
      bool f = true;
      for (auto &x : t.first) { o << (f ? "" : ",") << js(x.first) << ":" << js(x.second); f = false; }
      o << "},\"observed\":[";
      f = true;
      for (auto &x : t.second) { o << (f ? "" : ",") << "[" << js(x.first) << "," << jnum(x.second) << "]"; f = false; }
      o << "]}";
      first = false;
   }
   o << "],\"violations\":[";
   first = true;
   for (auto &v : e.violations)
   {
      o << (first ? "" : ",") << "{\"label\":" << js(v.label) << ",\"kind\":" << js(v.kind) << ",\"detail\":" << js(v.detail) << ",\"group\":" << v.group << ",\"inputs\":{";
      bool f = true;
      for (auto &x : v.assignment) { o << (f ? "" : ",") << js(x.first) << ":" << js(x.second); f = false; }
      o << "}}";
      first = false;
   }
   o << "]}\n";
   if (out.empty()) { std::cout << o.str(); }
   else { std::ofstream(out) << o.str(); }
   std::cout.flush();
   _exit(0);
}
