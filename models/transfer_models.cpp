// Symbolic side only: what the transfer operators need of MFEM.
#include "mfem.hpp"
namespace mfem
{
void Vector::AddElementVector(const Array<int> &dofs, const Vector &v)
{
   for (int i = 0; i < dofs.Size(); ++i) { const int j = dofs[i]; if (j >= 0) { (*this)(j) += v(i); } else { (*this)(-1 - j) -= v(i); } }
}
}
