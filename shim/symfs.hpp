// File model for the symbolic side.  Include after the standard headers and
// before the code under test; the names std::ofstream, std::ifstream and
// std::filesystem::create_directory then denote the models below.
#pragma once
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <string>
#include "sym.h"
#ifdef VERIF_SYMBOLIC
namespace verif_fs
{
struct Cell { int kind; unsigned char c; double d; long i; };   // 0 byte, 1 formatted double, 2 formatted integer
struct File { std::string name; Cell cell[96]; int size = 0; };
inline File *files[12];
inline int nfiles = 0;
inline std::string dirs[4];
inline int ndirs = 0;
inline std::string norm(const std::string &s)
{
   // a/b and a//b name the same file
   std::string r;
   for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '/' && i > 0 && s[i - 1] == '/') { continue; } r.push_back(s[i]); }
   return r;
}
inline std::string dirOf(const std::string &s)
{
   long k = -1;
   for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '/') { k = (long)i; } }
   return k < 0 ? std::string() : s.substr(0, k);
}
inline bool haveDir(const std::string &d)
{
   if (d.empty()) { return true; }
   for (int i = 0; i < ndirs; ++i) { if (dirs[i] == d) { return true; } }
   return false;
}
inline bool mkdir(const std::string &p)
{
   std::string d = norm(p);
   if (!d.empty() && d.back() == '/') { d.pop_back(); }
   if (haveDir(d)) { return false; }
   dirs[ndirs++] = d;
   return true;
}
inline File *find(const std::string &n0)
{
   std::string n = norm(n0);
   for (int i = 0; i < nfiles; ++i) { if (files[i]->name == n) { return files[i]; } }
   return nullptr;
}
inline File *create(const std::string &n0)
{
   std::string n = norm(n0);
   if (!haveDir(dirOf(n))) { return nullptr; }
   File *f = new File;
   f->name = n;
   files[nfiles++] = f;
   return f;
}
struct Base
{
   File *f = nullptr;
   int pos = 0;
   bool bad = false, eofbit_ = false;
   int prec = 6;
   bool fixedp = false;
   void open(const std::string &n, std::ios_base::openmode m)
   {
      f = find(n);
      if (m & std::ios_base::out)
      {
         if (!f) { if ((m & std::ios_base::in) && !(m & (std::ios_base::trunc | std::ios_base::app))) { bad = true; return; } f = create(n); }
         else if (!(m & std::ios_base::app) && (!(m & std::ios_base::in) || (m & std::ios_base::trunc))) { f->size = 0; }
         if (f && (m & (std::ios_base::app | std::ios_base::ate))) { pos = f->size; }
      }
      if (!f) { bad = true; }
   }
   bool is_open() const { return f != nullptr; }
   bool good() const { return !bad && !eofbit_; }
   bool fail() const { return bad; }
   bool eof() const { return eofbit_; }
   explicit operator bool() const { return !bad; }
   bool operator!() const { return bad; }
   void close() { if (!f) { bad = true; } f = nullptr; }
   void put1(const Cell &c)
   {
      if (bad || !f) { bad = true; return; }
      f->cell[pos] = c;
      ++pos;
      if (pos > f->size) { f->size = pos; }
   }
   int precision(int p) { int o = prec; prec = p; return o; }
};
inline bool isSpace(const Cell &c) { return c.kind == 0 && (c.c == ' ' || c.c == '\n' || c.c == '\t' || c.c == '\r'); }
}  // namespace verif_fs
namespace std
{
struct verif_ofstream : virtual verif_fs::Base
{
   verif_ofstream() { }
   explicit verif_ofstream(const std::string &n, std::ios_base::openmode m = std::ios_base::out) { verif_fs::Base::open(n, m | std::ios_base::out); }
   explicit verif_ofstream(const char *n, std::ios_base::openmode m = std::ios_base::out) { verif_fs::Base::open(n, m | std::ios_base::out); }
   explicit verif_ofstream(const std::filesystem::path &n, std::ios_base::openmode m = std::ios_base::out) { verif_fs::Base::open(n.native(), m | std::ios_base::out); }
   void open(const std::string &n, std::ios_base::openmode m = std::ios_base::out) { verif_fs::Base::open(n, m | std::ios_base::out); }
   verif_ofstream &write(const char *p, std::streamsize n)
   {
      for (std::streamsize i = 0; i < n; ++i) { put1({0, (unsigned char)p[i], 0.0, 0}); }
      return *this;
   }
   verif_ofstream &flush() { return *this; }
   verif_ofstream &put(char c) { put1({0, (unsigned char)c, 0.0, 0}); return *this; }
   verif_ofstream &operator<<(double d)
   {
      // 17 significant digits identify a double; fewer do not
      static int lossy = 0;
      put1({1, 0, prec >= 17 && !fixedp ? d : sym_double("rounded-by-formatting", lossy++), 0});
      return *this;
   }
   verif_ofstream &operator<<(int i) { put1({2, 0, 0.0, i}); return *this; }
   verif_ofstream &operator<<(long i) { put1({2, 0, 0.0, i}); return *this; }
   verif_ofstream &operator<<(unsigned long i) { put1({2, 0, 0.0, (long)i}); return *this; }
   verif_ofstream &operator<<(char c) { return put(c); }
   verif_ofstream &operator<<(const char *s) { for (; *s; ++s) { put(*s); } return *this; }
   verif_ofstream &operator<<(const std::string &s) { for (size_t i = 0; i < s.size(); ++i) { put(s[i]); } return *this; }
   verif_ofstream &operator<<(std::_Setprecision p) { prec = p._M_n; return *this; }
   verif_ofstream &operator<<(std::ios_base &(*m)(std::ios_base &))
   {
      if (m == (std::ios_base &(*)(std::ios_base &))std::fixed) { fixedp = true; }
      if (m == (std::ios_base &(*)(std::ios_base &))std::scientific) { fixedp = false; if (prec == 16) { prec = 17; } }
      return *this;
   }
   verif_ofstream &operator<<(std::ostream &(*)(std::ostream &)) { return put('\n'); }
};
struct verif_ifstream : virtual verif_fs::Base
{
   std::streamsize got = 0;
   verif_ifstream() { }
   explicit verif_ifstream(const std::string &n, std::ios_base::openmode m = std::ios_base::in) { verif_fs::Base::open(n, m | std::ios_base::in); }
   explicit verif_ifstream(const char *n, std::ios_base::openmode m = std::ios_base::in) { verif_fs::Base::open(n, m | std::ios_base::in); }
   explicit verif_ifstream(const std::filesystem::path &n, std::ios_base::openmode m = std::ios_base::in) { verif_fs::Base::open(n.native(), m | std::ios_base::in); }
   void open(const std::string &n, std::ios_base::openmode m = std::ios_base::in) { verif_fs::Base::open(n, m | std::ios_base::in); }
   verif_ifstream &read(char *p, std::streamsize n)
   {
      got = 0;
      if (bad || !f) { bad = true; return *this; }
      for (std::streamsize i = 0; i < n; ++i)
      {
         if (pos >= f->size) { bad = true; eofbit_ = true; return *this; }
         if (f->cell[pos].kind != 0) { sym_fail("binary read of formatted text"); }
         p[i] = (char)f->cell[pos++].c;
         ++got;
      }
      return *this;
   }
   std::streamsize gcount() const { return got; }
   bool token(int kind, verif_fs::Cell &out)
   {
      if (bad || !f) { bad = true; return false; }
      while (pos < f->size && verif_fs::isSpace(f->cell[pos])) { ++pos; }
      if (pos >= f->size) { bad = true; eofbit_ = true; return false; }
      out = f->cell[pos];
      // adjacent tokens would run together; integers may not be read from reals
      if (pos + 1 < f->size && !verif_fs::isSpace(f->cell[pos + 1])) { bad = true; return false; }
      if (out.kind == 0 || (out.kind == 1 && kind == 2)) { bad = true; return false; }
      ++pos;
      if (pos >= f->size) { eofbit_ = true; }
      return true;
   }
   verif_ifstream &operator>>(double &d) { verif_fs::Cell c; if (token(1, c)) { d = c.kind == 1 ? c.d : (double)c.i; } else { d = 0.0; } return *this; }
   verif_ifstream &operator>>(int &i) { verif_fs::Cell c; if (token(2, c)) { i = (int)c.i; } else { i = 0; } return *this; }
};
namespace filesystem
{
inline bool verif_create_directory(const std::string &p) { return verif_fs::mkdir(p); }
inline bool verif_create_directories(const std::string &p) { return verif_fs::mkdir(p); }
}
}
#define ofstream verif_ofstream
#define ifstream verif_ifstream
#define create_directory verif_create_directory
#define create_directories verif_create_directories
#endif
