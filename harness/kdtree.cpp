#include <algorithm>
#include <cmath>
#include <vector>
#include "mfem.hpp"
#include "kdtree.hpp"
#include "sym.h"
using namespace miso;
template <size_t D> static void fill(mfem::Vector &v, int i)
{
   for (size_t k = 0; k < D; ++k) { v(k) = sym_real_in("p", 3 * i + (int)k, -4.0, 4.0); }
}
template <size_t D> static double dist2(const mfem::Vector &a, const mfem::Vector &b)
{
   double s = 0;
   for (size_t k = 0; k < D; ++k) { s += (a(k) - b(k)) * (a(k) - b(k)); }
   return s;
}
template <size_t D> static void query(kdtree<double, D> &tree, mfem::Vector *p, const int *id, int n, int qi, bool byId)
{
   mfem::Vector q(D);
   for (size_t k = 0; k < D; ++k) { q(k) = sym_real_in("q", 3 * qi + (int)k, -4.0, 4.0); }
   int r = tree.nearest(point<double, D>(q));
   double best = tree.distance();
   sym_observe("distance", best);
   if (byId)
   {
      int w = -1;
      for (int i = 0; i < n; ++i) { if (id[i] == r) { w = i; } }
      sym_assert(w >= 0, "the index returned was added");
      if (w < 0) { sym_end(); }
      double d = dist2<D>(p[w], q);
      for (int i = 0; i < n; ++i) { sym_assert(d <= dist2<D>(p[i], q), "no other point is closer"); }
      sym_assert_eq(best, sqrt(d), "distance() is the distance to the point returned");
   }
   else
   {
      bool hit = false;
      for (int i = 0; i < n; ++i)
      {
         double d = dist2<D>(p[i], q);
         sym_assert(best * best <= d + 1e-9, "no point is closer than distance()");
         if (best * best >= d - 1e-9) { hit = true; }
      }
      sym_assert(hit, "distance() is attained");
   }
   sym_assert(tree.visited() >= 1 && tree.visited() <= (size_t)n, "every node is visited at most once");
}
template <size_t D> static void indexed(int n, int queries)
{
   mfem::Vector p[6];
   int id[6];
   kdtree<double, D> tree;
   tree.set_size(n);
   sym_assert(tree.empty(), "a new tree is empty");
   for (int i = 0; i < n; ++i)
   {
      p[i].SetSize(D);
      fill<D>(p[i], i);
      id[i] = 100 + 7 * i;
      tree.add_node(p[i], id[i]);
   }
   tree.finalize();
   sym_assert(!tree.empty(), "a tree with nodes is not empty");
   for (int k = 0; k < queries; ++k) { query<D>(tree, p, id, n, k, true); }
}
// the first coordinates of the points are ordered in a given way: the shards
// of a harness cover every order
template <size_t D> static void shard(int n, int code)
{
   for (int i = 0; i + 1 < n && (1 << i) <= 4; ++i)
   {
      double a = sym_real_in("p", 3 * i, -4.0, 4.0), b = sym_real_in("p", 3 * i + 3, -4.0, 4.0);
      sym_assume((code >> i) & 1 ? a < b : a >= b);
   }
   indexed<D>(n, 1);
}
#define SHARDS(name, D, n) \
   extern "C" void name##_0() { shard<D>(n, 0); } extern "C" void name##_1() { shard<D>(n, 1); } \
   extern "C" void name##_2() { shard<D>(n, 2); } extern "C" void name##_3() { shard<D>(n, 3); } \
   extern "C" void name##_4() { shard<D>(n, 4); } extern "C" void name##_5() { shard<D>(n, 5); } \
   extern "C" void name##_6() { shard<D>(n, 6); } extern "C" void name##_7() { shard<D>(n, 7); }
SHARDS(h_kd_2d_4s, 2, 4)
SHARDS(h_kd_3d_4s, 3, 4)
SHARDS(h_kd_2d_5s, 2, 5)
extern "C" void h_kd_2d_1() { indexed<2>(1, 2); }
extern "C" void h_kd_2d_2() { indexed<2>(2, 1); }
extern "C" void h_kd_2d_3() { indexed<2>(3, 1); }
extern "C" void h_kd_3d_3() { indexed<3>(3, 1); }
extern "C" void h_kd_1d_4() { indexed<1>(4, 1); }
// deeper trees: given points, every query
template <size_t D, int N> static void fixed(const double (&x)[N][D])
{
   mfem::Vector p[N];
   int id[N];
   kdtree<double, D> tree;
   for (int i = 0; i < N; ++i)
   {
      p[i].SetSize(D);
      for (size_t k = 0; k < D; ++k) { p[i](k) = x[i][k]; }
      id[i] = 100 + 7 * i;
      tree.add_node(p[i], id[i]);
   }
   tree.finalize();
   query<D>(tree, p, id, N, 0, true);
}
extern "C" void h_kd_fixed_1d()
{
   static const double x[9][1] = {{2}, {-1}, {0.5}, {3.5}, {-3}, {0}, {1}, {-2}, {2}};
   fixed<1, 9>(x);
}
extern "C" void h_kd_fixed_2d()
{
   static const double x[6][2] = {{1, 2}, {-1, 3}, {0, 0}, {2, -1}, {-3, -2}, {3, 0.5}};
   fixed<2, 6>(x);
}
extern "C" void h_kd_fixed_3d()
{
   static const double x[5][3] = {{1, 2, -1}, {-1, 3, 0}, {0, 0, 2}, {2, -1, 1}, {-3, -2, 0}};
   fixed<3, 5>(x);
}
// points added after finalize() take part once finalize() is called again
extern "C" void h_kd_refinalize()
{
   mfem::Vector p[4];
   int id[4];
   kdtree<double, 2> tree;
   for (int i = 0; i < 3; ++i)
   {
      p[i].SetSize(2);
      fill<2>(p[i], i);
      id[i] = 5 + i;
      tree.add_node(p[i], id[i]);
      if (i >= 1) { tree.finalize(); }
      if (i == 2) { query<2>(tree, p, id, i + 1, i, true); }
   }
}
// construction from a range of points and from a generator
extern "C" void h_kd_range()
{
   mfem::Vector p[3];
   std::vector<point<double, 2>> v;
   for (int i = 0; i < 3; ++i)
   {
      p[i].SetSize(2);
      fill<2>(p[i], i);
      v.emplace_back(p[i]);
   }
   if (sym_choice("how", 0, 0, 1))
   {
      kdtree<double, 2> tree(v.begin(), v.end());
      query<2>(tree, p, nullptr, 3, 0, false);
      sym_reach("range");
   }
   else
   {
      int k = 0;
      kdtree<double, 2> tree([&]() { return v[k++]; }, 3);
      query<2>(tree, p, nullptr, 3, 0, false);
      sym_reach("generator");
   }
}
// an empty tree refuses the query
extern "C" void h_kd_empty()
{
   kdtree<double, 3> tree;
   tree.set_size(4);
   tree.finalize();
   bool thrown = false;
   try { tree.nearest({sym_real("q", 0), sym_real("q", 1), sym_real("q", 2)}); }
   catch (const std::exception &) { thrown = true; }
   sym_assert(thrown, "nearest() on an empty tree throws");
}
