// sparse and dense matrix containers, linear solvers, vector operations
#include "w.h"
#include <mpi.h>
#include <cstring>
#include <vector>
// one rank: the sum over all ranks is the value of this rank
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op, MPI_Comm)
{
  for (int i = 0; i < n; ++i) static_cast<double*>(r)[i] = static_cast<const double*>(s)[i];
  return 0;
}
#include "nimble_linear_solver.h"
#include "nimble_view.h"
using namespace nimble;

static void fill(CRSMatrixContainer& c, int nr, int nnz, const double* a, const int* i, const int* j, const int* first)
{
  c.num_rows_ = nr;
  c.data_.assign(a, a + nnz);
  c.i_index_.assign(i, i + nnz);
  c.j_index_.assign(j, j + nnz);
  c.row_first_index_.assign(first, first + nr + 1);
}
API int m_alloc(int nr, int nnz, const int* i, const int* j, int* first, double* a)
{
  CRSMatrixContainer c;
  c.AllocateNonzeros(std::vector<int>(i, i + nnz), std::vector<int>(j, j + nnz));
  if (c.num_rows_ != nr || c.row_first_index_.size() != nr + 1 || c.data_.size() != nnz) return -1;
  for (int r = 0; r <= nr; ++r) first[r] = c.row_first_index_[r];
  for (int k = 0; k < nnz; ++k) a[k] = c.data_[k];
  for (int k = 0; k < nnz; ++k)
    if (c.i_index_[k] != i[k] || c.j_index_[k] != j[k]) return -2;
  return c.NumRows();
}
API int m_find(int nr, int nnz, const int* i, const int* j, const int* first, int r, int col, int)
{
  CRSMatrixContainer c;
  c.num_rows_ = nr;
  c.i_index_.assign(i, i + nnz);
  c.j_index_.assign(j, j + nnz);
  c.row_first_index_.assign(first, first + nr + 1);
  TRY return c.FindIndex(r, col); CATCH(ABORTED)
}
API double m_at(int nr, int nnz, const double* a, const int* i, const int* j, const int* first, int r, int col, int)
{
  CRSMatrixContainer c;
  fill(c, nr, nnz, a, i, j, first);
  return const_cast<const CRSMatrixContainer&>(c)(r, col);
}
API void m_put(int nr, int nnz, double* a, const int* i, const int* j, const int* first, int r, int col, double v, int)
{
  CRSMatrixContainer c;
  fill(c, nr, nnz, a, i, j, first);
  c(r, col) += v;
  for (int k = 0; k < nnz; ++k) a[k] = c.data_[k];
}
API void m_matvec(int nr, int nnz, const double* a, const int* i, const int* j, const int* first, const double* x, double* y)
{
  CRSMatrixContainer c;
  fill(c, nr, nnz, a, i, j, first);
  c.MatVec(x, y);
}
API void m_setall(int nr, int nnz, double* a, const int* i, const int* j, const int* first, double v)
{
  CRSMatrixContainer c;
  fill(c, nr, nnz, a, i, j, first);
  c.SetAllValues(v);
  for (int k = 0; k < nnz; ++k) a[k] = c.data_[k];
}
API void m_setrow(int nr, int nnz, double* a, const int* i, const int* j, const int* first, int r, double v)
{
  CRSMatrixContainer c;
  fill(c, nr, nnz, a, i, j, first);
  c.SetRowValues(r, v);
  for (int k = 0; k < nnz; ++k) a[k] = c.data_[k];
}
API void m_setcol(int nr, int nnz, double* a, const int* i, const int* j, const int* first, int r, double v)
{
  CRSMatrixContainer c;
  fill(c, nr, nnz, a, i, j, first);
  c.SetColumnValues(r, v);
  for (int k = 0; k < nnz; ++k) a[k] = c.data_[k];
}
API void m_diagvec(int n, const double* a, const double* x, double* y)
{
  CRSMatrixContainer c;
  c.AllocateDiagonalMatrix(n);
  for (int k = 0; k < n; ++k) c.data_[k] = a[k];
  c.DiagonalMatrixMatVec(x, y);
}
API void m_prec(int nr, int nnz, const double* a, const int* i, const int* j, const int* first, double* m, const int*)
{
  CRSMatrixContainer c, M;
  fill(c, nr, nnz, a, i, j, first);
  M.AllocateDiagonalMatrix(nr);
  PopulateDiagonalPreconditioner(c, M);
  for (int k = 0; k < nr; ++k) m[k] = M.data_[k];
}
// dense
API double m_dense(int n, const double* a, int r, int col, int rr, double rv, int cc, double cv)
{
  MatrixContainer c;
  c.num_rows_ = n;
  c.data_.assign(a, a + n * n);
  c.SetRowValues(rr, rv);
  c.SetColumnValues(cc, cv);
  return const_cast<const MatrixContainer&>(c)(r, col);
}
// conjugate gradients
API int m_cg(int nr, int nnz, const double* a, const int* i, const int* j, const int* first, const double* b, double* x, double tol, int maxit, int* it, const int*)
{
  CRSMatrixContainer c;
  fill(c, nr, nnz, a, i, j, first);
  CGScratchSpace w;
  bool ok = CG_SolveSystem(c, b, w, x, *it, tol, maxit);
  return ok ? 1 : 0;
}
API double m_dot(int n, const double* x, const double* y) { return InnerProduct(n, x, y); }
API double m_dotv(int n, const double* x, const double* y) { return InnerProduct(std::vector<double>(x, x + n), std::vector<double>(y, y + n)); }
