// libc / libstdc++ functions used by the code under verification, as loops the
// engine can execute.  Symbolic side only.
#include <cstddef>
#include <string>
struct lconv;
template class std::basic_string<char>;
extern "C"
{
int strncmp(const char *a, const char *b, unsigned long n)
{
   for (unsigned long i = 0; i < n; ++i)
   {
      if (a[i] != b[i]) { return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; }
      if (!a[i]) { break; }
   }
   return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (((volatile const char *)s)[n]) { ++n; } return n; }
int memcmp(const void *a, const void *b, size_t n)
{
   const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
   for (size_t i = 0; i < n; ++i) { if (x[i] != y[i]) { return x[i] < y[i] ? -1 : 1; } }
   return 0;
}
static struct { const char *point, *sep, *rest[20]; } locale_data = {".", "", {}};
static int errno_cell;
int *__errno_location() { return &errno_cell; }
struct lconv *localeconv() { return (struct lconv *)&locale_data; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char *a, const char *b)
{
   for (;; ++a, ++b)
   {
      if (*a != *b) { return (unsigned char)*a < (unsigned char)*b ? -1 : 1; }
      if (!*a) { return 0; }
   }
}
void *memchr(const void *s, int c, size_t n)
{
   const unsigned char *p = (const unsigned char *)s;
   for (size_t i = 0; i < n; ++i) { if (p[i] == (unsigned char)c) { return (void *)(p + i); } }
   return nullptr;
}
}
// unordered containers
#include <unordered_map>
namespace std
{
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
   const unsigned char *c = (const unsigned char *)p;
   size_t h = seed ^ 1469598103934665603ull;
   for (size_t i = 0; i < n; ++i) { h = (h ^ c[i]) * 1099511628211ull; }
   return h;
}
namespace __detail
{
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
   for (size_t p : primes)
   {
      if (p >= n) { _M_next_resize = p; return p; }
   }
   return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
   if (n_elt + n_ins > _M_next_resize)
   {
      size_t want = n_elt + n_ins;
      if (_M_next_resize == 0 && want < 11) { want = 11; }
      if (want >= n_bkt)
      {
         size_t g = n_bkt * _S_growth_factor;
         return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)};
      }
      _M_next_resize = n_bkt;
   }
   return {false, 0};
}
}
}
// ordered containers: binary search trees that are not rebalanced
#include <map>
namespace std
{
using P = _Rb_tree_node_base *;
static P tree_inc(P x)
{
   if (x->_M_right)
   {
      x = x->_M_right;
      while (x->_M_left) { x = x->_M_left; }
      return x;
   }
   P y = x->_M_parent;
   while (x == y->_M_right) { x = y; y = y->_M_parent; }
   return x->_M_right != y ? y : x;
}
static P tree_dec(P x)
{
   // the header is red and its parent is the root, whose parent is the header
   if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) { return x->_M_right; }
   if (x->_M_left)
   {
      P y = x->_M_left;
      while (y->_M_right) { y = y->_M_right; }
      return y;
   }
   P y = x->_M_parent;
   while (x == y->_M_left) { x = y; y = y->_M_parent; }
   return y;
}
P _Rb_tree_increment(P x) throw() { return tree_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return tree_inc(const_cast<P>(x)); }
P _Rb_tree_decrement(P x) throw() { return tree_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return tree_dec(const_cast<P>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base &h) throw()
{
   x->_M_parent = p;
   x->_M_left = x->_M_right = nullptr;
   x->_M_color = _S_black;
   if (left)
   {
      p->_M_left = x;
      if (p == &h) { h._M_parent = x; h._M_right = x; }
      else if (p == h._M_left) { h._M_left = x; }
   }
   else
   {
      p->_M_right = x;
      if (p == h._M_right) { h._M_right = x; }
   }
}
P _Rb_tree_rebalance_for_erase(P z, _Rb_tree_node_base &h) throw()
{
   P x = nullptr;
   if (!z->_M_left) { x = z->_M_right; }
   else if (!z->_M_right) { x = z->_M_left; }
   else
   {
      // hang the left subtree below the leftmost node of the right one
      P y = z->_M_right;
      while (y->_M_left) { y = y->_M_left; }
      y->_M_left = z->_M_left;
      z->_M_left->_M_parent = y;
      x = z->_M_right;
   }
   P p = z->_M_parent;
   if (x) { x->_M_parent = p; }
   if (h._M_parent == z) { h._M_parent = x; }
   else if (p->_M_left == z) { p->_M_left = x; }
   else { p->_M_right = x; }
   if (!h._M_parent) { h._M_left = h._M_right = &h; }
   else
   {
      P l = h._M_parent, r = h._M_parent;
      while (l->_M_left) { l = l->_M_left; }
      while (r->_M_right) { r = r->_M_right; }
      h._M_left = l;
      h._M_right = r;
   }
   return z;
}
}  // namespace std
// The standard streams: printing has no effect on the properties.  std::endl is
// inlined and reads the stream's ctype facet, so there has to be one.
struct FakeCtype { char pre[56], ok, widen[263]; };
struct FakeVtable { long vbase, z[2], slots[8]; };
struct FakeStream { const long *vptr; char pre[232]; const FakeCtype *ctype; char post[64]; };
static FakeCtype fake_ctype = {{0}, 1, {0}};
static FakeVtable fake_vtable = {0, {0, 0}, {0}};
FakeStream fake_cout __asm__("_ZSt4cout") = {&fake_vtable.slots[0], {0}, &fake_ctype, {0}};
FakeStream fake_cerr __asm__("_ZSt4cerr") = {&fake_vtable.slots[0], {0}, &fake_ctype, {0}};
FakeStream fake_out __asm__("_ZN4mfem3outE") = {&fake_vtable.slots[0], {0}, &fake_ctype, {0}};
FakeStream fake_err __asm__("_ZN4mfem3errE") = {&fake_vtable.slots[0], {0}, &fake_ctype, {0}};
#include <list>
namespace std
{
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept
{
   if (this == l) { return; }
   l->_M_prev->_M_next = this;
   f->_M_prev->_M_next = l;
   _M_prev->_M_next = f;
   _List_node_base *const t = _M_prev;
   _M_prev = l->_M_prev;
   l->_M_prev = f->_M_prev;
   f->_M_prev = t;
}
}
}
