// boundary conditions: a manager with given node sets and conditions
#include "w.h"
#include "nimble_boundary_condition_manager.cc"
#include "nimble_boundary_condition.cc"
#include "nimble_linear_solver.cc"
#include "nimble_expression_parser.cc"
#include "nimble_view.h"
using namespace nimble;

static void cond(BoundaryConditionManager& b, int type, int set, int coord, int expr, double mag)
{
  BoundaryCondition c;
  c.dim_ = b.dim_;
  c.bc_type_ = (BoundaryCondition::Boundary_Condition_Type)type;
  c.node_set_id_ = type == BoundaryCondition::PRESCRIBED_TRACTION ? -1 : set;
  c.side_set_id_ = type == BoundaryCondition::PRESCRIBED_TRACTION ? set : -1;
  c.coordinate_ = coord;
  c.has_expression_ = expr != 0;
  c.magnitude_ = mag;
#ifdef NATIVE
  c.expression_string_ = "1.5*x-0.25*y+z*t+0.125*t";
  c.expression_ = ExpressionParsing::BoundaryConditionFunctor(c.expression_string_);
#endif
  b.boundary_conditions_.push_back(c);
}
static void setup(BoundaryConditionManager& b, int dim, int scheme)
{
  b.dim_ = dim;
  b.time_integration_scheme_ = (BoundaryConditionManager::Time_Integration_Scheme)scheme;
}
static Viewify<2> view(double* p, int nn, int dim) { return Viewify<2>(p, {nn, dim}, {dim, 1}); }

API void bc_kin(int dim, int scheme, int type, int coord, int expr, double mag, double t1, double t0, int nn, double* X, double* u, double* v, int m, const int* set)
{
  BoundaryConditionManager b;
  setup(b, dim, scheme);
  b.node_sets_[5] = std::vector<int>(set, set + m);
  cond(b, type, 5, coord, expr, mag);
  b.ApplyKinematicBC(t1, t0, view(X, nn, dim), view(u, nn, dim), view(v, nn, dim));
}
API void bc_init(int dim, int scheme, int type, int coord, int expr, double mag, int nn, double* X, double* v, int m, const int* set)
{
  BoundaryConditionManager b;
  setup(b, dim, scheme);
  b.node_sets_[5] = std::vector<int>(set, set + m);
  cond(b, type, 5, coord, expr, mag);
  b.ApplyInitialConditions(view(X, nn, dim), view(v, nn, dim));
}
API void bc_two(int scheme, int type1, int c1, double mag1, int type2, int c2, double mag2, double t1, double t0, int nn, double* X, double* u, double* v,
                int m, const int* set, int m2, const int* set2)
{
  BoundaryConditionManager b;
  setup(b, 3, scheme);
  b.node_sets_[5] = std::vector<int>(set, set + m);
  b.node_sets_[9] = std::vector<int>(set2, set2 + m2);
  cond(b, type1, 5, c1, 0, mag1);
  cond(b, type2, 9, c2, 0, mag2);
  b.ApplyKinematicBC(t1, t0, view(X, nn, 3), view(u, nn, 3), view(v, nn, 3));
}
API void bc_rhs(int dim, int type, int coord, int nn, int ng, const int* gid, double* rhs, int m, const int* set)
{
  BoundaryConditionManager b;
  setup(b, dim, 1);
  b.node_sets_[5] = std::vector<int>(set, set + m);
  cond(b, type, 5, coord, 0, 1.0);
  b.ModifyRHSForKinematicBC(gid, rhs);
}
static void mk(CRSMatrixContainer& A, int nr, int nnz, const double* a, const int* ii, const int* jj, const int* first)
{
  A.num_rows_ = nr;
  A.data_.assign(a, a + nnz);
  A.i_index_.assign(ii, ii + nnz);
  A.j_index_.assign(jj, jj + nnz);
  A.row_first_index_.assign(first, first + nr + 1);
}
API void bc_tan(int type, int coord, double diag, int nn, int ng, const int* gid, int nr, int nnz, double* a, const int* ii, const int* jj, const int* first, int m, const int* set)
{
  BoundaryConditionManager b;
  setup(b, 3, 1);
  b.node_sets_[5] = std::vector<int>(set, set + m);
  cond(b, type, 5, coord, 0, 1.0);
  CRSMatrixContainer A;
  mk(A, nr, nnz, a, ii, jj, first);
  b.ModifyTangentStiffnessMatrixForKinematicBC(nr, gid, diag, A);
  for (int k = 0; k < nnz; ++k) a[k] = A.data_[k];
}
