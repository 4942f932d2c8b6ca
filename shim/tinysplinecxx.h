#ifndef VERIF_TINYSPLINE_SHIM_H
#define VERIF_TINYSPLINE_SHIM_H
#include <cstddef>
#include <vector>
namespace tinyspline
{
typedef double real;
class DeBoorNet
{
public:
   std::vector<real> r;
   std::vector<real> result() const { return r; }
};
class BSpline
{
public:
   BSpline() = default;
   explicit BSpline(size_t n, size_t dim = 2, size_t deg = 3) : deg_(deg), dim_(dim) { cps_.resize(n*dim); }
   void setControlPoints(const std::vector<real> &c) { cps_ = c; }
   void setKnots(const std::vector<real> &k) { knots_ = k; }
   std::vector<real> controlPoints() const { return cps_; }
   std::vector<real> knots() const { return knots_; }
   BSpline derive(size_t n = 1) const;
   DeBoorNet eval(real u) const;
   DeBoorNet operator()(real u) const { return eval(u); }
   size_t deg_ = 3, dim_ = 1;
   std::vector<real> cps_, knots_;
};
}
#endif
