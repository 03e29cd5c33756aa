// explicit time integration: the real integrator runs a model whose forces and conditions are
// arbitrary functions of node, time and current state.  The application object, output and
// MPI barrier are stand-ins that only record.
#include "w.h"
#include <mpi.h>
#include "nimble_parser.h"
#include "nimble_data_manager.h"
#include "nimble_contact_manager.h"
#include "nimble_vector_communicator.h"
#define MPI_Barrier(c) (void)0
#include "integrators/explicit_time_integrator.cc"
#include "integrators/integrator_base.cc"
#include "nimble_model_data_base.cc"
#undef MPI_Barrier
#include "nimble_boundary_condition_manager.h"
#include "nimble_contact_interface.h"
#include <cstring>
#include <new>
using namespace nimble;

#ifdef NATIVE
static double gf(double c, double i, double a, double b, double t, double s) { return c + 0.25 * a - 0.125 * b + 0.0625 * t - 0.03125 * s + 0.5 * i / (i + 1.0); }
extern "C" double vf_u(double i, double u, double v, double t, double s) { return 0.9 * u + 0.01 * gf(0.1, i, u, v, t, s); }
extern "C" double vf_v(double i, double u, double v, double t, double s) { return 0.8 * v + 0.02 * gf(0.2, i, v, u, s, t); }
extern "C" double vf_fi(double i, double u, double t, double s, double o) { return gf(-0.3, i, -u, o, t, s); }
extern "C" double vf_fe(double i, double t, double s, double o) { return gf(0.4, i, o, 0, s, t); }
#else
extern "C" double vf_u(double i, double u, double v, double t, double s);    // kinematic conditions on unknown i: displacement,
extern "C" double vf_v(double i, double u, double v, double t, double s);    // velocity
extern "C" double vf_fi(double i, double u, double t, double s, double o);   // internal and external force on unknown i
extern "C" double vf_fe(double i, double t, double s, double o);
#endif

static int       rank_, ranks_, steps_, writes_;
static Parser*   parser_;
static double*   outt_;
static int*      outf_;
static double    *U, *V, *A, *FI, *FE, *FC, *M;
static double *pu_, *pv_;
static int       nn_;

class Model : public ModelDataBase
{
 public:
  int AllocateNodeData(Length, std::string, int) override { return -1; }
  int GetFieldId(const std::string& s) const override
  {
    const char* n[] = {"reference_coordinate", "displacement", "velocity", "acceleration", "internal_force", "external_force", "contact_force", "lumped_mass"};
    for (int i = 0; i < 8; ++i) if (s == n[i]) return i;
    return -1;
  }
  void InitializeBlocks(DataManager&, const std::shared_ptr<MaterialFactoryBase>&) override {}
  void UpdateStates(const DataManager&) override { ++steps_; }
  Viewify<1> GetScalarNodeData(int) override { return {M, {nn_}, {1}}; }
  Viewify<2> GetVectorNodeData(int i) override
  {
    double* d[] = {nullptr, U, V, A, FI, FE, FC, nullptr};
    return {d[i], {nn_, 3}, {3, 1}};
  }
  void ComputeLumpedMass(DataManager&) override {}
  void ApplyInitialConditions(DataManager&) override { for (int i = 0; i < 3 * nn_; ++i) V[i] = vf_v(i, U[i], V[i], -1.0, -1.0); }
  void ApplyKinematicConditions(DataManager&, double t, double s) override
  {
    for (int i = 0; i < 3 * nn_; ++i) {
      double u = U[i], v = V[i];
      U[i] = vf_u(i, u, v, t, s);
      V[i] = vf_v(i, u, v, t, s);
    }
  }
  void ComputeExternalForce(DataManager&, double s, double t, bool o) override { for (int i = 0; i < 3 * nn_; ++i) FE[i] = vf_fe(i, t, s, o ? 1.0 : 0.0); }
  void ComputeInternalForce(DataManager&, double s, double t, bool o, const Viewify<2>& u, Viewify<2>& f) override
  {
    double *d = f.data(), *e = u.data();
    for (int i = 0; i < 3 * nn_; ++i) d[i] = vf_fi(i, e[i], t, s, o ? 1.0 : 0.0);
  }
};
namespace nimble {
int NimbleApplication::Rank() const noexcept { return rank_; }
int NimbleApplication::NumRanks() const noexcept { return ranks_; }
Parser& NimbleApplication::GetParser() { return *parser_; }
std::shared_ptr<ContactInterface> NimbleApplication::GetContactInterface() { return nullptr; }
void DataManager::WriteOutput(double t)
{
  // slot 0: before the first step, slot k: at the end of step k
  int k   = writes_ == 0 ? 0 : steps_ + 1;
  outf_[k] += 1;
  outt_[k] = t;
  writes_ = 1;
  for (int i = 0; i < 3 * nn_; ++i) { pu_[i] = U[i]; pv_[i] = V[i]; }
}
std::shared_ptr<ContactManager> GetContactManager(std::shared_ptr<ContactInterface>, DataManager&) { return nullptr; }
}
static char app_[256], dm_[2048], mesh_[4096], par_[4096];

API int t_run(int nn, int rank, int steps, int freq, double t0, double t1, const double* m, double* u, double* v, double* a, double* fi, double* fe,
              int* outf, double* outt, double* pu, double* pv)
{
  TRY
  rank_ = rank; ranks_ = 2; steps_ = 0; writes_ = 0; nn_ = nn;
  U = u; V = v; A = a; FI = fi; FE = fe; FC = nullptr; M = const_cast<double*>(m); outf_ = outf; outt_ = outt; pu_ = pu; pv_ = pv;
  Parser* p = parser_ = reinterpret_cast<Parser*>(par_);
  p->initial_time_ = t0; p->final_time_ = t1; p->num_load_steps_ = steps; p->output_frequency_ = freq;
  new (&p->contact_string_) std::string();
  p->visualize_contact_entities_ = p->visualize_contact_bounding_boxes_ = p->write_timing_data_file_ = false;
  GenesisMesh* g = reinterpret_cast<GenesisMesh*>(mesh_);
  g->dim_ = 3;
  new (&g->node_x_) std::vector<double>(nn);
  new (&g->block_ids_) std::vector<int>();
  DataManager* d = reinterpret_cast<DataManager*>(dm_);
  new (&d->model_data_) std::shared_ptr<ModelDataBase>(new Model());
  new (&d->vector_communicator_) std::shared_ptr<VectorCommunicator>();
  ExplicitTimeIntegrator e(*reinterpret_cast<NimbleApplication*>(app_), *g, *d);
  int r = e.Integrate();
  d->model_data_.reset();
  if (r != 0 || steps_ != steps) return -1;
  CATCH(ABORTED)
  return 0;
}
