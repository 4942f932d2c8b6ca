// dgels with full-rank matrices: least squares (m >= n) or minimum norm (m < n)
// by the normal equations, solved by elimination.  Symbolic side only; the
// native side links LAPACK.
extern "C" void dgels_(char *trans, int *pm, int *pn, int *pnrhs, double *A, int *plda, double *B, int *pldb, double *work, int *lwork, int *info)
{
   const int m = *pm, n = *pn, nrhs = *pnrhs, lda = *plda, ldb = *pldb;
   *info = 0;
   const int k = m >= n ? n : m;
   double G[40][40], Y[40];
   for (int r = 0; r < nrhs; ++r)
   {
      double *b = B + r * ldb;
      for (int i = 0; i < k; ++i)
      {
         for (int j = 0; j < k; ++j)
         {
            double s = 0.0;
            if (m >= n) { for (int l = 0; l < m; ++l) { s += A[l + i * lda] * A[l + j * lda]; } }
            else { for (int l = 0; l < n; ++l) { s += A[i + l * lda] * A[j + l * lda]; } }
            G[i][j] = s;
         }
         double s = 0.0;
         if (m >= n) { for (int l = 0; l < m; ++l) { s += A[l + i * lda] * b[l]; } }
         else { s = b[i]; }
         Y[i] = s;
      }
      // the Gram matrix is positive definite: no pivoting
      for (int i = 0; i < k; ++i)
      {
         for (int j = i + 1; j < k; ++j)
         {
            double f = G[j][i] / G[i][i];
            for (int l = i; l < k; ++l) { G[j][l] -= f * G[i][l]; }
            Y[j] -= f * Y[i];
         }
      }
      for (int i = k - 1; i >= 0; --i)
      {
         double s = Y[i];
         for (int j = i + 1; j < k; ++j) { s -= G[i][j] * Y[j]; }
         Y[i] = s / G[i][i];
      }
      if (m >= n) { for (int i = 0; i < n; ++i) { b[i] = Y[i]; } }
      else
      {
         for (int j = 0; j < n; ++j)
         {
            double s = 0.0;
            for (int i = 0; i < k; ++i) { s += A[i + j * lda] * Y[i]; }
            b[j] = s;
         }
      }
   }
}
