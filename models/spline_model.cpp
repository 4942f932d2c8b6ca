// tinyspline's B-splines, by de Boor's recursion.  Used on both sides: the
// library is not installed here.
#include "tinysplinecxx.h"
#include <stdexcept>
namespace tinyspline
{
static void valid(const BSpline &s)
{
   if (s.cps_.size() <= s.deg_ * s.dim_ || s.knots_.size() != s.cps_.size() / s.dim_ + s.deg_ + 1) { throw std::runtime_error("spline: sizes"); }
   for (size_t i = 1; i < s.knots_.size(); ++i) { if (s.knots_[i] < s.knots_[i - 1]) { throw std::runtime_error("spline: knots decrease"); } }
}
DeBoorNet BSpline::eval(real u) const
{
   valid(*this);
   const size_t p = deg_, n = cps_.size() / dim_;
   if (u < knots_[p] || u > knots_[n]) { throw std::runtime_error("spline: parameter outside of the domain"); }
   size_t k = p;
   while (k + 1 < n && u >= knots_[k + 1]) { ++k; }
   while (k > p && knots_[k] == knots_[k + 1]) { --k; }
   DeBoorNet r;
   for (size_t d = 0; d < dim_; ++d)
   {
      std::vector<real> a(p + 1);
      for (size_t i = 0; i <= p; ++i) { a[i] = cps_[(k - p + i) * dim_ + d]; }
      for (size_t l = 1; l <= p; ++l)
      {
         for (size_t i = p; i >= l; --i)
         {
            const real lo = knots_[k - p + i], hi = knots_[k + 1 + i - l];
            const real w = (u - lo) / (hi - lo);
            a[i] = (1.0 - w) * a[i - 1] + w * a[i];
         }
      }
      r.r.push_back(a[p]);
   }
   return r;
}
BSpline BSpline::derive(size_t n) const
{
   valid(*this);
   BSpline s(*this);
   for (size_t q = 0; q < n; ++q)
   {
      const size_t m = s.cps_.size() / dim_, p = s.deg_;
      std::vector<real> c;
      for (size_t i = 0; i + 1 < m; ++i)
      {
         const real h = s.knots_[i + p + 1] - s.knots_[i + 1];
         for (size_t d = 0; d < dim_; ++d) { c.push_back(p * (s.cps_[(i + 1) * dim_ + d] - s.cps_[i * dim_ + d]) / h); }
      }
      s.cps_ = c;
      s.knots_ = std::vector<real>(s.knots_.begin() + 1, s.knots_.end() - 1);
      s.deg_ = p - 1;
   }
   return s;
}
}
