// quasistatic time integration: the real integrator on a real model whose blocks, linear solver and output are stand-ins
#include "w.h"
#include <mpi.h>
// one rank: the reduction over all ranks is the value of this rank
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op, MPI_Comm)
{
  for (int i = 0; i < n; ++i) static_cast<double*>(r)[i] = static_cast<const double*>(s)[i];
  return 0;
}
#include "nimble_linear_solver.h"
// the linear solver itself is a stand-in (it has its own contracts), its matrix is real
#define CG_SolveSystem real_CG_SolveSystem
#include "nimble_linear_solver.cc"
#undef CG_SolveSystem
#include "nimble_parser.h"
#include "nimble_data_manager.h"
#include "nimble_vector_communicator.h"
#include "nimble_genesis_mesh.cc"
#undef BUILD_MATCH
#include "nimble_boundary_condition.cc"
#include "nimble_boundary_condition_manager.cc"
#include "nimble_expression_parser.cc"
#include "nimble_data_utils.cc"
#include "nimble_mesh_utils.cc"
#include "nimble_material_factory.cc"
#include "nimble_model_data_base.cc"
#include "nimble_model_data.cc"
namespace nimble {
template <>
void BlockBase::ComputeTangentStiffnessMatrix<CRSMatrixContainer>(int, const double* const, const double* const, int, const int* const, const int* const, CRSMatrixContainer&) const;
}
#include "integrators/integrator_base.cc"
#include "integrators/quasistatic_time_integrator.cc"
#include <cstring>
#include <new>
using namespace nimble;

#ifdef NATIVE
static double mix(const double* u, int n, int i)
{
  double s = 0;
  for (int k = 0; k < n; ++k) s += u[k] * (k == i ? 2.0 : 0.25 * ((k * 3 + i * 5) % 4 - 1));
  return s;
}
// force on unknown i, element data, tangent entry, solution of the linear system and success of the solver: arbitrary functions
extern "C" double vf_f(double i, double u, double s, double t, double o) { return 0.75 * u + 0.125 * i - 0.25 * s + 0.5 * t + 0.0625 * o; }
extern "C" double vf_g(int n, double i, const double* u, double q, double s, double t, double o) { return -mix(u, n, (int)i) + 0.125 * i + 0.5 * q - 0.25 * s + 0.5 * t + 0.0625 * o; }
extern "C" double vf_q(int n, const double* u, double q, double s, double t, double o) { return 0.5 * q + mix(u, n, 0) + t - s + 0.5 * o; }
extern "C" double vf_k(int n, double i, double j, const double* u) { return (i == j ? 3.0 : 0.25) + 0.125 * i - 0.0625 * j + 0.125 * u[0] * u[n - 1]; }
extern "C" double vf_s(int n, double i, const double* A, const double* b) { return b[(int)i] * (0.3 + 0.05 * A[n * (int)i + (int)i]) + 0.03 * A[(int)i] * b[0]; }
extern "C" double vf_ok(int n, const double* A, const double* b) { return A[0] * b[n - 1] < 4.0 ? 1.0 : -1.0; }
#else
extern "C" double vf_f(double i, double u, double s, double t, double o);
extern "C" double vf_g(int n, double i, const double* u, double q, double s, double t, double o);
extern "C" double vf_q(int n, const double* u, double q, double s, double t, double o);
extern "C" double vf_k(int n, double i, double j, const double* u);
extern "C" double vf_s(int n, double i, const double* A, const double* b);
extern "C" double vf_ok(int n, const double* A, const double* b);
#endif
static int     nn_, nu_, writes_, general_;
static double *outt_, *outu_, *outq_;
static ModelData* model_;

namespace nimble {
void Block::ComputeInternalForce(const double*, const double* u, const double*, double* f, double s, double t, int, const int*, const int*, std::vector<std::string> const&,
                                 std::vector<double> const& qn, std::vector<double>& q, DataManager&, bool out, bool) const
{
  if (general_) {
    for (int i = 0; i < nu_; ++i) f[i] += vf_g(nu_, i, u, qn[0], s, t, out ? 1.0 : 0.0);
    q[0] = vf_q(nu_, u, qn[0], s, t, out ? 1.0 : 0.0);
  } else
    for (int i = 0; i < nu_; ++i) f[i] += vf_f(i, u[i], s, t, out ? 1.0 : 0.0);
}
void Block::ComputeLumpedMassMatrix(const double* const, int, const int* const, double*) const {}
double BlockBase::ComputeCriticalTimeStep(const Viewify<2>&, const Viewify<2>&, int, const int*) const { return 1.0; }
void Block::Initialize(std::string const&, MaterialFactory&) {}
void Block::GetDataLabelsAndLengths(std::vector<std::pair<std::string, Length>>&) {}
void Block::InitializeElementData(int, std::vector<int> const&, std::vector<std::string> const&, std::vector<std::string> const&, std::vector<double>&, std::vector<double>&,
                                  MaterialFactory&, DataManager&) {}
void Block::ComputeDerivedElementData(const double* const, const double* const, int, const int* const, int, std::vector<double> const&, int, std::vector<std::vector<double>>&) {}
void Block::InstantiateElement() {}
template <>
void BlockBase::ComputeTangentStiffnessMatrix<CRSMatrixContainer>(int n, const double* const, const double* const u, int, const int* const, const int* const, CRSMatrixContainer& K) const
{
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) K(i, j) += vf_k(n, i, j, u);
}
bool CG_SolveSystem(CRSMatrixContainer& A, const double* b, CGScratchSpace&, double* x, int& it, double, int)
{
  int n = A.NumRows();
  for (int i = 0; i < n; ++i) x[i] += vf_s(n, i, A.data_.data(), b);
  it = 1;
  return vf_ok(n, A.data_.data(), b) > 0.0;
}
void TpetraContainer::VectorReduction(int, double*) {}
void DataManager::WriteOutput(double t)
{
  if (writes_ < 4) {
    outt_[writes_] = t;
    for (int i = 0; i < nu_; ++i) outu_[nu_ * writes_ + i] = model_->GetNodeData("displacement")[i];
    outq_[writes_] = model_->GetElementDataNew(1)[0];
  }
  ++writes_;
}
int NimbleApplication::Rank() const noexcept { return 0; }
int NimbleApplication::NumRanks() const noexcept { return 1; }
static char par_[4096];
Parser& NimbleApplication::GetParser() { return *reinterpret_cast<Parser*>(par_); }
}
static char dm_[4096], vc_[512], tp_[1024], app_[256];

static DataManager& setup(ModelData& M, GenesisMesh& g, BoundaryConditionManager& b, int dim, int nn)
{
  model_ = &M;
  std::memset(vc_, 0, sizeof vc_);
  VectorCommunicator* c = reinterpret_cast<VectorCommunicator*>(vc_);
  new (&c->TpetraReductionInfo) std::unique_ptr<TpetraContainer>(reinterpret_cast<TpetraContainer*>(tp_));
  DataManager* d = reinterpret_cast<DataManager*>(dm_);
  new (&d->vector_communicator_) std::shared_ptr<VectorCommunicator>(std::shared_ptr<VectorCommunicator>(), c);
  new (&d->boundary_condition_) std::shared_ptr<BoundaryConditionManager>(std::shared_ptr<BoundaryConditionManager>(), &b);
  new (&d->model_data_) std::shared_ptr<ModelDataBase>(std::shared_ptr<ModelDataBase>(), &M);
  GenesisMesh** p = reinterpret_cast<GenesisMesh**>(dm_ + sizeof(void*));   // DataManager::mesh_
  *p = &g;
  g.dim_ = dim;
  M.SetDimension(dim);
  b.dim_ = dim;
  b.time_integration_scheme_ = BoundaryConditionManager::QUASISTATIC;
  nn_ = nn;
  nu_ = dim * nn;
  g.node_x_ = std::vector<double>(nn);
  M.blocks_[1] = std::make_shared<Block>();
  g.block_ids_.push_back(1);
  g.block_num_nodes_per_elem_[1] = 1;
  g.block_elem_connectivity_[1] = std::vector<int>(1, 0);
  g.block_elem_global_ids_[1] = std::vector<int>(1, 0);
  M.element_component_labels_[1] = std::vector<std::string>(1);
  return *d;
}
static void cond(BoundaryConditionManager& b, int type, int set, int coord, double mag)
{
  BoundaryCondition c;
  c.dim_ = b.dim_;
  c.bc_type_ = (BoundaryCondition::Boundary_Condition_Type)type;
  c.node_set_id_ = set;
  c.coordinate_ = coord;
  c.magnitude_ = mag;
  b.boundary_conditions_.push_back(c);
}
static double* field(ModelData& M, const char* l, int n, const double* d)
{
  int id = M.AllocateNodeData(VECTOR, l, nn_);
  double* p = M.GetNodeData(id);
  for (int i = 0; i < n; ++i) p[i] = d ? d[i] : 0.0;
  return p;
}
// the residual of a displacement and its measure
API double q_res(int dim, int nn, int ng, const int* gid, int type, int coord, int m, const int* set, double s, double t, int out, double* u, double* F, double* R)
{
  ModelData                M;
  GenesisMesh              g;
  BoundaryConditionManager b;
  DataManager&             d = setup(M, g, b, dim, nn);
  general_ = 0;
  b.node_sets_[5] = std::vector<int>(set, set + m);
  cond(b, type, 5, coord, 0.5);
  field(M, "reference_coordinate", 0, nullptr);
  field(M, "velocity", 0, nullptr);
  M.element_data_n_[1] = M.element_data_np1_[1] = std::vector<double>(1);
  std::vector<int> ids(gid, gid + nn);
  Viewify<2>       U(u, {nn, dim}, {dim, 1}), V(F, {nn, dim}, {dim, 1});
  return ComputeQuasistaticResidual(g, d, b, dim * ng, ids, s, t, U, V, R, out != 0);
}
// the integrator on nn nodes: returns the status
API int q_run(int dim, int nn, const int* gid, int nset, const int* set, int coord, double mag, double vel, int steps, int freq, int maxit, double rtol, double t0, double t1, double q0,
              double* u, double* f, double* q, int* writes, double* outt, double* outu, double* outq)
{
  int r;
  TRY
  ModelData                M;
  GenesisMesh              g;
  BoundaryConditionManager b;
  DataManager&             d = setup(M, g, b, dim, nn);
  general_ = 1; writes_ = 0; outt_ = outt; outu_ = outu; outq_ = outq;
  b.node_sets_[5] = std::vector<int>(set, set + nset);
  b.node_sets_[7] = std::vector<int>(1, nn - 1);
  if (nset) cond(b, BoundaryCondition::PRESCRIBED_DISPLACEMENT, 5, coord, mag);
  cond(b, BoundaryCondition::PRESCRIBED_VELOCITY, 7, 0, vel);
  field(M, "reference_coordinate", nu_, nullptr);
  double* U = field(M, "displacement", nu_, u);
  field(M, "displacement_fluctuation", nu_, nullptr);
  field(M, "trial_displacement", nu_, nullptr);
  field(M, "velocity", nu_, nullptr);
  double* F = field(M, "internal_force", nu_, nullptr);
  field(M, "trial_internal_force", nu_, nullptr);
  M.element_data_n_[1] = std::vector<double>(1, q0);
  M.element_data_np1_[1] = std::vector<double>(1, q0);
  g.node_global_id_ = std::vector<int>(gid, gid + nn);
  g.block_num_nodes_per_elem_[1] = nn;
  std::vector<int>& c = g.block_elem_connectivity_[1];
  c.clear();
  for (int i = 0; i < nn; ++i) c.push_back(i);
  Parser* p = reinterpret_cast<Parser*>(par_);
  p->my_rank_ = 0; p->num_ranks_ = 1;
  p->initial_time_ = t0; p->final_time_ = t1; p->num_load_steps_ = steps; p->output_frequency_ = freq;
  p->nonlinear_solver_max_iterations_ = maxit; p->nonlinear_solver_relative_tolerance_ = rtol;
  QuasistaticTimeIntegrator e(*reinterpret_cast<NimbleApplication*>(app_), g, d);
  r = e.Integrate();
  for (int i = 0; i < nu_; ++i) { u[i] = U[i]; f[i] = F[i]; }
  q[0] = M.GetElementDataOld(1)[0];
  *writes = writes_;
  CATCH(ABORTED)
  return r;
}
