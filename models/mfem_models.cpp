// Models of out-of-line MFEM functions used by the code under verification.
// Used only on the symbolic side; the native side links the real library.
#include <cmath>
#include "mfem.hpp"
namespace mfem
{
Vector::Vector(const Vector &v)
{
   const int s = v.Size();
   size = s;
   if (s > 0)
   {
      data.New(s);
      for (int i = 0; i < s; ++i) { data[i] = v.data[i]; }
   }
}
Vector::Vector(Vector &&v) { data = v.data; size = v.size; v.data.Reset(); v.size = 0; }
Vector &Vector::operator=(Vector &&v) { data.Delete(); data = v.data; size = v.size; v.data.Reset(); v.size = 0; return *this; }
double Vector::Norml2() const
{
   double s = 0.0;
   for (int i = 0; i < size; ++i) { s += data[i] * data[i]; }
   return std::sqrt(s);
}
double Vector::operator*(const Vector &v) const
{
   double s = 0.0;
   for (int i = 0; i < size; ++i) { s += data[i] * v.data[i]; }
   return s;
}
Vector &Vector::operator=(double v) { for (int i = 0; i < size; ++i) { data[i] = v; } return *this; }
Vector &Vector::operator=(const double *v) { for (int i = 0; i < size; ++i) { data[i] = v[i]; } return *this; }
Vector &Vector::operator=(const Vector &v)
{
   SetSize(v.Size());
   for (int i = 0; i < size; ++i) { data[i] = v.data[i]; }
   return *this;
}
void add(const Vector &a, double t, const Vector &b, Vector &c)
{
   for (int i = 0; i < a.Size(); ++i) { c(i) = a(i) + t * b(i); }
}
void add(double a, const Vector &x, double b, const Vector &y, Vector &z)
{
   for (int i = 0; i < x.Size(); ++i) { z(i) = a * x(i) + b * y(i); }
}
void add(const Vector &a, const Vector &b, Vector &c)
{
   for (int i = 0; i < a.Size(); ++i) { c(i) = a(i) + b(i); }
}
void add(double a, const Vector &x, const Vector &y, Vector &z)
{
   for (int i = 0; i < x.Size(); ++i) { z(i) = a * (x(i) + y(i)); }
}
void subtract(const Vector &a, const Vector &b, Vector &c)
{
   for (int i = 0; i < a.Size(); ++i) { c(i) = a(i) - b(i); }
}
void subtract(double t, const Vector &a, const Vector &b, Vector &c)
{
   for (int i = 0; i < a.Size(); ++i) { c(i) = t * (a(i) - b(i)); }
}
double Vector::Normlinf() const
{
   double m = 0.0;
   for (int i = 0; i < size; ++i) { m = std::max(std::fabs(data[i]), m); }
   return m;
}
double Vector::Norml1() const
{
   double m = 0.0;
   for (int i = 0; i < size; ++i) { m += std::fabs(data[i]); }
   return m;
}
double Vector::Sum() const
{
   double m = 0.0;
   for (int i = 0; i < size; ++i) { m += data[i]; }
   return m;
}
double Vector::Max() const
{
   if (size == 0) { return -INFINITY; }
   double m = data[0];
   for (int i = 1; i < size; ++i) { if (data[i] > m) { m = data[i]; } }
   return m;
}
double Vector::Min() const
{
   if (size == 0) { return INFINITY; }
   double m = data[0];
   for (int i = 1; i < size; ++i) { if (data[i] < m) { m = data[i]; } }
   return m;
}
double Vector::operator*(const double *v) const
{
   double s = 0.0;
   for (int i = 0; i < size; ++i) { s += data[i] * v[i]; }
   return s;
}
void Vector::Neg() { for (int i = 0; i < size; ++i) { data[i] = -data[i]; } }
Vector &Vector::operator*=(double c) { for (int i = 0; i < size; ++i) { data[i] *= c; } return *this; }
Vector &Vector::operator*=(const Vector &v) { for (int i = 0; i < size; ++i) { data[i] *= v(i); } return *this; }
Vector &Vector::operator/=(double c) { for (int i = 0; i < size; ++i) { data[i] /= c; } return *this; }
Vector &Vector::operator-=(double c) { for (int i = 0; i < size; ++i) { data[i] -= c; } return *this; }
Vector &Vector::operator-=(const Vector &v) { for (int i = 0; i < size; ++i) { data[i] -= v(i); } return *this; }
Vector &Vector::operator+=(double c) { for (int i = 0; i < size; ++i) { data[i] += c; } return *this; }
Vector &Vector::operator+=(const Vector &v) { for (int i = 0; i < size; ++i) { data[i] += v(i); } return *this; }
Vector &Vector::Add(double a, const Vector &v) { for (int i = 0; i < size; ++i) { data[i] += a * v(i); } return *this; }
Vector &Vector::Set(double a, const Vector &v) { for (int i = 0; i < size; ++i) { data[i] = a * v(i); } return *this; }
// dense matrices
DenseMatrix::DenseMatrix() : Matrix(0) { }
DenseMatrix::DenseMatrix(int s) : Matrix(s)
{
   if (s > 0) { data.New(s * s); *this = 0.0; }
}
DenseMatrix::DenseMatrix(int m, int n) : Matrix(m, n)
{
   const int c = m * n;
   if (c > 0) { data.New(c); *this = 0.0; }
}
DenseMatrix::DenseMatrix(const DenseMatrix &m) : Matrix(m.height, m.width)
{
   const int c = height * width;
   if (c > 0)
   {
      data.New(c);
      for (int i = 0; i < c; ++i) { data[i] = m.data[i]; }
   }
}
DenseMatrix::DenseMatrix(const DenseMatrix &m, char ch) : Matrix(m.width, m.height)
{
   const int c = height * width;
   if (c > 0)
   {
      data.New(c);
      for (int i = 0; i < height; ++i) { for (int j = 0; j < width; ++j) { (*this)(i, j) = m(j, i); } }
   }
}
DenseMatrix::~DenseMatrix() { data.Delete(); }
void DenseMatrix::SetSize(int h, int w)
{
   if (Height() == h && Width() == w) { return; }
   height = h;
   width = w;
   const int hw = h * w;
   if (hw > data.Capacity())
   {
      data.Delete();
      data.New(hw);
      *this = 0.0;
   }
}
DenseMatrix &DenseMatrix::operator=(double c)
{
   const int n = Height() * Width();
   for (int i = 0; i < n; ++i) { data[i] = c; }
   return *this;
}
DenseMatrix &DenseMatrix::operator=(const double *d)
{
   const int n = Height() * Width();
   for (int i = 0; i < n; ++i) { data[i] = d[i]; }
   return *this;
}
DenseMatrix &DenseMatrix::operator=(const DenseMatrix &m)
{
   SetSize(m.height, m.width);
   const int n = Height() * Width();
   for (int i = 0; i < n; ++i) { data[i] = m.data[i]; }
   return *this;
}
DenseMatrix &DenseMatrix::operator+=(const double *m) { const int n = Height() * Width(); for (int i = 0; i < n; ++i) { data[i] += m[i]; } return *this; }
DenseMatrix &DenseMatrix::operator+=(const DenseMatrix &m) { return *this += m.Data(); }
DenseMatrix &DenseMatrix::operator-=(const DenseMatrix &m) { const int n = Height() * Width(); for (int i = 0; i < n; ++i) { data[i] -= m.data[i]; } return *this; }
DenseMatrix &DenseMatrix::operator*=(double c) { const int n = Height() * Width(); for (int i = 0; i < n; ++i) { data[i] *= c; } return *this; }
void DenseMatrix::Neg() { const int n = Height() * Width(); for (int i = 0; i < n; ++i) { data[i] = -data[i]; } }
void DenseMatrix::Set(double a, const double *A) { const int n = Height() * Width(); for (int i = 0; i < n; ++i) { data[i] = a * A[i]; } }
void DenseMatrix::Add(const double c, const DenseMatrix &A)
{
   for (int j = 0; j < Width(); ++j) { for (int i = 0; i < Height(); ++i) { (*this)(i, j) += c * A(i, j); } }
}
double &DenseMatrix::Elem(int i, int j) { return (*this)(i, j); }
const double &DenseMatrix::Elem(int i, int j) const { return (*this)(i, j); }
void DenseMatrix::Mult(const double *x, double *y) const
{
   for (int i = 0; i < height; ++i)
   {
      double s = 0.0;
      for (int j = 0; j < width; ++j) { s += (*this)(i, j) * x[j]; }
      y[i] = s;
   }
}
void DenseMatrix::Mult(const Vector &x, Vector &y) const { Mult((const double *)x, (double *)y); }
void DenseMatrix::MultTranspose(const double *x, double *y) const
{
   for (int j = 0; j < width; ++j)
   {
      double s = 0.0;
      for (int i = 0; i < height; ++i) { s += (*this)(i, j) * x[i]; }
      y[j] = s;
   }
}
void DenseMatrix::MultTranspose(const Vector &x, Vector &y) const { MultTranspose((const double *)x, (double *)y); }
void DenseMatrix::AddMult(const Vector &x, Vector &y, const double a) const
{
   for (int i = 0; i < height; ++i)
   {
      double s = 0.0;
      for (int j = 0; j < width; ++j) { s += (*this)(i, j) * x(j); }
      y(i) += a * s;
   }
}
void DenseMatrix::AddMultTranspose(const Vector &x, Vector &y, const double a) const
{
   for (int j = 0; j < width; ++j)
   {
      double s = 0.0;
      for (int i = 0; i < height; ++i) { s += (*this)(i, j) * x(i); }
      y(j) += a * s;
   }
}
void DenseMatrix::AddMult_a(double a, const Vector &x, Vector &y) const
{
   for (int i = 0; i < height; ++i)
   {
      double s = 0.0;
      for (int j = 0; j < width; ++j) { s += (*this)(i, j) * x(j); }
      y(i) += a * s;
   }
}
double DenseMatrix::InnerProduct(const double *x, const double *y) const
{
   double p = 0.0;
   for (int i = 0; i < height; ++i)
   {
      double s = 0.0;
      for (int j = 0; j < width; ++j) { s += (*this)(i, j) * x[j]; }
      p += s * y[i];
   }
   return p;
}
void DenseMatrix::LeftScaling(const Vector &s) { for (int j = 0; j < width; ++j) { for (int i = 0; i < height; ++i) { (*this)(i, j) *= s(i); } } }
void DenseMatrix::RightScaling(const Vector &s) { for (int j = 0; j < width; ++j) { for (int i = 0; i < height; ++i) { (*this)(i, j) *= s(j); } } }
void DenseMatrix::Diag(double c, int n)
{
   SetSize(n);
   *this = 0.0;
   for (int i = 0; i < n; ++i) { (*this)(i, i) = c; }
}
void DenseMatrix::Diag(double *d, int n)
{
   SetSize(n);
   *this = 0.0;
   for (int i = 0; i < n; ++i) { (*this)(i, i) = d[i]; }
}
void DenseMatrix::GetRow(int r, Vector &row) const
{
   row.SetSize(Width());
   for (int j = 0; j < Width(); ++j) { row(j) = (*this)(r, j); }
}
void DenseMatrix::SetRow(int r, const double *row) { for (int j = 0; j < Width(); ++j) { (*this)(r, j) = row[j]; } }
void DenseMatrix::SetRow(int r, const Vector &row) { SetRow(r, row.GetData()); }
void DenseMatrix::SetCol(int c, const double *col) { for (int i = 0; i < Height(); ++i) { (*this)(i, c) = col[i]; } }
void DenseMatrix::SetCol(int c, const Vector &col) { SetCol(c, col.GetData()); }
void DenseMatrix::CopyCols(const DenseMatrix &A, int c1, int c2)
{
   SetSize(A.Height(), c2 - c1 + 1);
   for (int j = c1; j <= c2; ++j) { for (int i = 0; i < A.Height(); ++i) { (*this)(i, j - c1) = A(i, j); } }
}
void DenseMatrix::GetColumn(int c, Vector &col) const
{
   col.SetSize(Height());
   for (int i = 0; i < Height(); ++i) { col(i) = (*this)(i, c); }
}
void DenseMatrix::GetDiag(Vector &d) const
{
   d.SetSize(height);
   for (int i = 0; i < height; ++i) { d(i) = (*this)(i, i); }
}
double DenseMatrix::Trace() const
{
   double t = 0.0;
   for (int i = 0; i < width; ++i) { t += (*this)(i, i); }
   return t;
}
void DenseMatrix::Transpose()
{
   DenseMatrix t(*this, 't');
   *this = t;
}
void DenseMatrix::Transpose(const DenseMatrix &A)
{
   SetSize(A.Width(), A.Height());
   for (int i = 0; i < Height(); ++i) { for (int j = 0; j < Width(); ++j) { (*this)(i, j) = A(j, i); } }
}
double DenseMatrix::Det() const
{
   switch (Height())
   {
   case 1: return data[0];
   case 2: return data[0] * data[3] - data[1] * data[2];
   case 3:
   {
      const double *d = data;
      return d[0] * (d[4] * d[8] - d[5] * d[7]) + d[3] * (d[2] * d[7] - d[1] * d[8]) + d[6] * (d[1] * d[5] - d[2] * d[4]);
   }
   }
   abort();
}
double DenseMatrix::Weight() const
{
   if (Height() == Width()) { return Det(); }
   if (Height() == 2 && Width() == 1) { return std::sqrt(data[0] * data[0] + data[1] * data[1]); }
   if (Height() == 3 && Width() == 1) { return std::sqrt(data[0] * data[0] + data[1] * data[1] + data[2] * data[2]); }
   if (Height() == 3 && Width() == 2)
   {
      const double *d = data;
      double E = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
      double G = d[3] * d[3] + d[4] * d[4] + d[5] * d[5];
      double F = d[0] * d[3] + d[1] * d[4] + d[2] * d[5];
      return std::sqrt(E * G - F * F);
   }
   abort();
}
MatrixInverse *DenseMatrix::Inverse() const { abort(); }
void Vector::Print(std::ostream &, int) const { }
void DenseMatrix::Print(std::ostream &, int) const { }
void DenseMatrix::PrintMatlab(std::ostream &) const { }
void Mult(const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a)
{
   for (int j = 0; j < a.Width(); ++j)
   {
      for (int i = 0; i < a.Height(); ++i)
      {
         double s = 0.0;
         for (int k = 0; k < b.Width(); ++k) { s += b(i, k) * c(k, j); }
         a(i, j) = s;
      }
   }
}
void AddMult(const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a)
{
   for (int j = 0; j < a.Width(); ++j)
   {
      for (int i = 0; i < a.Height(); ++i)
      {
         double s = 0.0;
         for (int k = 0; k < b.Width(); ++k) { s += b(i, k) * c(k, j); }
         a(i, j) += s;
      }
   }
}
void AddMult_a(double alpha, const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a)
{
   for (int j = 0; j < a.Width(); ++j)
   {
      for (int i = 0; i < a.Height(); ++i)
      {
         double s = 0.0;
         for (int k = 0; k < b.Width(); ++k) { s += b(i, k) * c(k, j); }
         a(i, j) += alpha * s;
      }
   }
}
void MultABt(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &C)
{
   for (int j = 0; j < C.Width(); ++j)
   {
      for (int i = 0; i < C.Height(); ++i)
      {
         double s = 0.0;
         for (int k = 0; k < A.Width(); ++k) { s += A(i, k) * B(j, k); }
         C(i, j) = s;
      }
   }
}
void AddMultABt(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &C)
{
   for (int j = 0; j < C.Width(); ++j)
   {
      for (int i = 0; i < C.Height(); ++i)
      {
         double s = 0.0;
         for (int k = 0; k < A.Width(); ++k) { s += A(i, k) * B(j, k); }
         C(i, j) += s;
      }
   }
}
void AddMult_a_ABt(double a, const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &C)
{
   for (int j = 0; j < C.Width(); ++j)
   {
      for (int i = 0; i < C.Height(); ++i)
      {
         double s = 0.0;
         for (int k = 0; k < A.Width(); ++k) { s += A(i, k) * B(j, k); }
         C(i, j) += a * s;
      }
   }
}
void MultAtB(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &C)
{
   for (int j = 0; j < C.Width(); ++j)
   {
      for (int i = 0; i < C.Height(); ++i)
      {
         double s = 0.0;
         for (int k = 0; k < A.Height(); ++k) { s += A(k, i) * B(k, j); }
         C(i, j) = s;
      }
   }
}
void MultAAt(const DenseMatrix &A, DenseMatrix &C) { MultABt(A, A, C); }
void AddMult_a_VWt(const double a, const Vector &v, const Vector &w, DenseMatrix &m)
{
   for (int i = 0; i < v.Size(); ++i) { for (int j = 0; j < w.Size(); ++j) { m(i, j) += a * v(i) * w(j); } }
}
void AddMultVWt(const Vector &v, const Vector &w, DenseMatrix &m) { AddMult_a_VWt(1.0, v, w, m); }
void MultVWt(const Vector &v, const Vector &w, DenseMatrix &m)
{
   for (int i = 0; i < v.Size(); ++i) { for (int j = 0; j < w.Size(); ++j) { m(i, j) = v(i) * w(j); } }
}
void AddMult_a_VVt(const double a, const Vector &v, DenseMatrix &m) { AddMult_a_VWt(a, v, v, m); }
void MultVVt(const Vector &v, DenseMatrix &m) { MultVWt(v, v, m); }
void CalcAdjugate(const DenseMatrix &a, DenseMatrix &r)
{
   if (a.Width() == 1) { r(0, 0) = 1.0; return; }
   if (a.Width() == 2)
   {
      r(0, 0) = a(1, 1); r(0, 1) = -a(0, 1); r(1, 0) = -a(1, 0); r(1, 1) = a(0, 0);
      return;
   }
   r(0, 0) = a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1);
   r(0, 1) = a(0, 2) * a(2, 1) - a(0, 1) * a(2, 2);
   r(0, 2) = a(0, 1) * a(1, 2) - a(0, 2) * a(1, 1);
   r(1, 0) = a(1, 2) * a(2, 0) - a(1, 0) * a(2, 2);
   r(1, 1) = a(0, 0) * a(2, 2) - a(0, 2) * a(2, 0);
   r(1, 2) = a(0, 2) * a(1, 0) - a(0, 0) * a(1, 2);
   r(2, 0) = a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0);
   r(2, 1) = a(0, 1) * a(2, 0) - a(0, 0) * a(2, 1);
   r(2, 2) = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
}
void CalcAdjugateTranspose(const DenseMatrix &a, DenseMatrix &r)
{
   DenseMatrix t(a.Height(), a.Width());
   CalcAdjugate(a, t);
   for (int i = 0; i < r.Height(); ++i) { for (int j = 0; j < r.Width(); ++j) { r(i, j) = t(j, i); } }
}
void CalcInverse(const DenseMatrix &a, DenseMatrix &inva)
{
   CalcAdjugate(a, inva);
   inva *= 1.0 / a.Det();
}
void CalcInverseTranspose(const DenseMatrix &a, DenseMatrix &inva)
{
   CalcAdjugateTranspose(a, inva);
   inva *= 1.0 / a.Det();
}
void CalcOrtho(const DenseMatrix &J, Vector &n)
{
   const double *d = J.Data();
   if (J.Height() == 2) { n(0) = d[1]; n(1) = -d[0]; }
   else
   {
      n(0) = d[1] * d[5] - d[2] * d[4];
      n(1) = d[2] * d[3] - d[0] * d[5];
      n(2) = d[0] * d[4] - d[1] * d[3];
   }
}
template <> int Array<int>::Max() const { int m = (*this)[0]; for (int i = 1; i < Size(); ++i) { if ((*this)[i] > m) { m = (*this)[i]; } } return m; }
template <> int Array<int>::Min() const { int m = (*this)[0]; for (int i = 1; i < Size(); ++i) { if ((*this)[i] < m) { m = (*this)[i]; } } return m; }
template <> int Array<int>::Sum() { int m = 0; for (int i = 0; i < Size(); ++i) { m += (*this)[i]; } return m; }
void Vector::GetSubVector(const Array<int> &dofs, Vector &v) const
{
   v.SetSize(dofs.Size());
   for (int i = 0; i < dofs.Size(); ++i) { v(i) = dofs[i] >= 0 ? data[dofs[i]] : -data[-1 - dofs[i]]; }
}
void Vector::SetSubVector(const Array<int> &dofs, const double v)
{
   for (int i = 0; i < dofs.Size(); ++i) { const int j = dofs[i]; if (j >= 0) { data[j] = v; } else { data[-1 - j] = -v; } }
}
void Vector::SetSubVector(const Array<int> &dofs, const Vector &v)
{
   for (int i = 0; i < dofs.Size(); ++i) { const int j = dofs[i]; if (j >= 0) { data[j] = v(i); } else { data[-1 - j] = -v(i); } }
}
}
