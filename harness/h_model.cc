// model data: the real ModelData on top of blocks, reduction and boundary conditions that are
// stand-ins: each adds an arbitrary function of what it is handed.
#include "w.h"
#include "nimble_data_manager.h"
#include "nimble_vector_communicator.h"
#include "nimble_genesis_mesh.cc"
#undef BUILD_MATCH
#include "nimble_data_utils.cc"
#include "nimble_material_factory.cc"
#include "nimble_model_data_base.cc"
#include "nimble_model_data.cc"
#include <cstring>
#include <new>
using namespace nimble;

#ifdef NATIVE
extern "C" double vf_m(double c, double n, double i, double x) { return 0.5 + 0.25 * c + 0.125 * n - 0.0625 * i + x; }
extern "C" double vf_dt(double c, double n, double x, double u) { return 0.25 + c * c - 0.5 * n + x * u; }
extern "C" double vf_r(double d, double i, double x) { return 2.0 * x + d - i; }
extern "C" double vf_bf(double c, double n, double g, double l, double q, double t, double s, double o, double x, double u, double v, double i)
{ return c - n + 0.5 * g + 0.25 * l - q + t * 0.125 + s * 0.375 + o + x - 2 * u + 3 * v - 0.5 * i; }
extern "C" double vf_bd(double c, double q, double j) { return c + 3 * q - j; }
#else
extern "C" double vf_m(double c, double n, double i, double x);
extern "C" double vf_dt(double c, double n, double x, double u);
extern "C" double vf_r(double d, double i, double x);
extern "C" double vf_bf(double c, double n, double g, double l, double q, double t, double s, double o, double x, double u, double v, double i);
extern "C" double vf_bd(double c, double q, double j);
#endif
static int nn_, reductions_;

namespace nimble {
// the block is identified by its first connectivity entry
void Block::ComputeLumpedMassMatrix(const double* const X, int ne, const int* const conn, double* m) const { for (int i = 0; i < nn_; ++i) m[i] += vf_m(conn[0], ne, i, X[3 * i]); }
double BlockBase::ComputeCriticalTimeStep(const Viewify<2>& X, const Viewify<2>& u, int ne, const int* conn) const { return vf_dt(conn[0], ne, X(nn_ - 1, 1), u(nn_ - 1, 2)); }
void Block::ComputeInternalForce(const double* X, const double* u, const double* v, double* f, double s, double t, int ne, const int* conn, const int* ids,
                                 std::vector<std::string> const& labels, std::vector<double> const& qn, std::vector<double>& q, DataManager&, bool out, bool only) const
{
  if (only) return;
  for (int i = 0; i < 3 * nn_; ++i) f[i] += vf_bf(conn[0], ne, ids[0], labels.size(), qn[0], s, t, out ? 1.0 : 0.0, X[i], u[i], v[i], i);
  int n = (int)q.size();
  for (int j = 0; j < n; ++j) q[j] = vf_bd(conn[0], qn[0], j);
}
void Block::Initialize(std::string const&, MaterialFactory&) {}
void Block::GetDataLabelsAndLengths(std::vector<std::pair<std::string, Length>>&) {}
void Block::InitializeElementData(int, std::vector<int> const&, std::vector<std::string> const&, std::vector<std::string> const&, std::vector<double>&, std::vector<double>&,
                                  MaterialFactory&, DataManager&) {}
void Block::ComputeDerivedElementData(const double* const, const double* const, int, const int* const, int, std::vector<double> const&, int, std::vector<std::vector<double>>&) {}
void Block::InstantiateElement() {}
// what the other ranks add
void TpetraContainer::VectorReduction(int d, double* x) { ++reductions_; for (int i = 0; i < nn_ * d; ++i) x[i] = vf_r(d, i, x[i]); }
}
static char dm_[4096], vc_[512], tp_[1024];

static DataManager& setup(ModelData& M, GenesisMesh& g, int nn)
{
  nn_ = nn;
  std::memset(vc_, 0, sizeof vc_);
  VectorCommunicator* c = reinterpret_cast<VectorCommunicator*>(vc_);
  new (&c->TpetraReductionInfo) std::unique_ptr<TpetraContainer>(reinterpret_cast<TpetraContainer*>(tp_));
  DataManager* d = reinterpret_cast<DataManager*>(dm_);
  new (&d->vector_communicator_) std::shared_ptr<VectorCommunicator>(std::shared_ptr<VectorCommunicator>(), c);
  GenesisMesh** p = reinterpret_cast<GenesisMesh**>(dm_ + sizeof(void*));   // DataManager::mesh_
  *p = &g;
  g.dim_ = M.dim_ = 3;
  return *d;
}
static void field(ModelData& M, const char* l, int nn, const double* d)
{
  int id = M.AllocateNodeData(VECTOR, l, nn);
  double* p = M.GetNodeData(id);
  for (int i = 0; i < 3 * nn; ++i) p[i] = d[i];
}
static void blocks(ModelData& M, GenesisMesh& g, int nb, const int* n, const int* const* c)
{
  for (int k = 0; k < nb; ++k) {
    int id = 7 - 2 * k;
    M.blocks_[id] = std::make_shared<Block>();
    g.block_ids_.push_back(id);
    g.block_num_nodes_per_elem_[id] = 8;
    g.block_elem_connectivity_[id] = std::vector<int>(c[k], c[k] + 8 * n[k]);
    g.block_elem_global_ids_[id] = std::vector<int>(1, 100 + id);
    M.element_component_labels_[id] = std::vector<std::string>(k + 1);
  }
}

// lumped mass and critical time step of a model with nb blocks
API double m_mass(int nb, int nn, int n0, int n1, int n2, const int* c0, const int* c1, const int* c2, const double* X, const double* u, double* m)
{
  ModelData   M;
  GenesisMesh g;
  DataManager& d = setup(M, g, nn);
  const int* c[] = {c0, c1, c2};
  int n[] = {n0, n1, n2};
  field(M, "reference_coordinate", nn, X);
  field(M, "displacement", nn, u);
  int id = M.AllocateNodeData(SCALAR, "lumped_mass", nn);
  blocks(M, g, nb, n, c);
  ModelDataBase& B = M;
  B.ComputeLumpedMass(d);
  for (int i = 0; i < nn; ++i) m[i] = M.GetNodeData(id)[i];
  return B.GetCriticalTimeStep();
}
// internal force of a model with nb blocks
API void m_force(int nb, int nn, int n0, int n1, int n2, const int* c0, const int* c1, const int* c2, const double* X, const double* w, const double* v, const double* u,
                 double s, double t, int out, double q0, double q1, double q2, double* f, double* r)
{
  ModelData   M;
  GenesisMesh g;
  DataManager& d = setup(M, g, nn);
  const int* c[] = {c0, c1, c2};
  int n[] = {n0, n1, n2};
  double q[] = {q0, q1, q2};
  field(M, "reference_coordinate", nn, X);
  field(M, "velocity", nn, v);
  field(M, "displacement", nn, w);
  blocks(M, g, nb, n, c);
  for (int k = 0; k < nb; ++k) {
    M.element_data_n_[7 - 2 * k] = std::vector<double>(2, q[k]);
    M.element_data_np1_[7 - 2 * k] = std::vector<double>(2, -1.0);
  }
  ModelDataBase& B = M;
  Viewify<2> U(const_cast<double*>(u), {nn, 3}, {3, 1}), F(f, {nn, 3}, {3, 1});
  B.ComputeInternalForce(d, s, t, out != 0, U, F);
  for (int k = 0; k < nb; ++k) { r[4 * k] = M.GetElementDataOld(7 - 2 * k)[0]; r[4 * k + 1] = M.GetElementDataNew(7 - 2 * k)[1]; }
  B.UpdateStates(d);
  for (int k = 0; k < nb; ++k) { r[4 * k + 2] = M.GetElementDataOld(7 - 2 * k)[0]; r[4 * k + 3] = M.GetElementDataOld(7 - 2 * k)[1]; }
}
// reference coordinates of the nodes of a mesh
API void m_ref(int dim, int nn, const double* x, const double* y, const double* z, double* X)
{
  TRY
  ModelData   M;
  GenesisMesh g;
  g.dim_ = dim;
  M.SetDimension(dim);
  g.node_x_ = std::vector<double>(x, x + nn);
  g.node_y_ = std::vector<double>(y, y + nn);
  g.node_z_ = std::vector<double>(z, z + nn);
  int id = M.AllocateNodeData(VECTOR, "reference_coordinate", nn);
  M.SetReferenceCoordinates(g);
  for (int i = 0; i < dim * nn; ++i) X[i] = M.GetNodeData(id)[i];
  CATCH()
}
// external force: none
API void m_ext(int nn, double* F)
{
  ModelData   M;
  GenesisMesh g;
  DataManager& d = setup(M, g, nn);
  field(M, "external_force", nn, F);
  ModelDataBase& B = M;
  B.ComputeExternalForce(d, 0.0, 1.0, true);
  for (int i = 0; i < 3 * nn; ++i) F[i] = M.GetNodeData(0)[i];
}
static const char* label(int k)
{
  switch (k) {
    case 0: return "density";
    case 1: return "displacement";
    case 2: return "velocity";
    case 3: return "plastic_strain";
    case 4: return "gradient";
    case 5: return "Velocity";
    default: return "stress";
  }
}
static Length len(int k)
{
  switch (k) {
    case 0: return SCALAR;
    case 1: return VECTOR;
    case 2: return SYMMETRIC_TENSOR;
    case 3: return FULL_TENSOR;
    default: return (Length)(k - 3);   // 4: one unnamed component, ...
  }
}
// storage of nodal fields: na fields with labels la, lengths ka over nn nodes; r[i] the id given to field i, s[i] the size of its storage, g[i] the id found by its label
API void m_alloc(int dim, int na, const int* la, const int* ka, int nn, int* r, int* s, int* g)
{
  ModelData M;
  M.SetDimension(dim);
  for (int i = 0; i < na; ++i) r[i] = M.AllocateNodeData(len(ka[i]), label(la[i]), nn);
  for (int i = 0; i < na; ++i) {
    g[i] = M.GetFieldId(label(la[i]));
    s[i] = (int)M.node_data_.at(r[i]).size();
  }
}
// output of component q of nodal field f among three fields (lengths k0..k2, values d0..d2)
API int m_nodeout(int dim, int k0, int k1, int k2, int f, int q, int nn, const double* d0, const double* d1, const double* d2, double* o)
{
  ModelData M;
  M.SetDimension(dim);
  int           k[] = {k0, k1, k2}, id[3];
  const double* d[] = {d0, d1, d2};
  for (int i = 0; i < 3; ++i) {
    id[i] = M.AllocateNodeData(len(k[i]), label(i + 2), nn);
    double* p = M.GetNodeData(id[i]);
    int     n = LengthToInt(len(k[i]), dim) * nn;
    for (int j = 0; j < n; ++j) p[j] = d[i][j];
  }
  M.output_node_component_labels_.push_back("absent");
  M.output_node_component_labels_.push_back(GetComponentLabels(label(f + 2), len(k[f]), dim)[q]);
  std::vector<std::vector<double>> out;
  M.GetNodeDataForOutput(out);
  if (out.size() != 2 || (int)out[1].size() != nn) return 1;
  for (int j = 0; j < nn; ++j) o[j] = out[1][j];
  return 0;
}
// output of component q of element field f (of two, at 2 integration points) for a block of ne elements
API int m_elemout(int k0, int k1, int f, int p, int q, int ne, const double* d, double* o)
{
  ModelData M;
  M.SetDimension(3);
  int k[] = {k0, k1};
  for (int b = 0; b < 2; ++b) {
    std::vector<std::pair<std::string, Length>> l;
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) l.push_back({AddIntegrationPointPrefix(label(j + 3), i + 1), len(k[j])});
    M.DeclareElementData(b + 1, l);
  }
  std::map<int, int> n;
  n[1] = 1; n[2] = ne;
  M.AllocateElementData(n);
  int sz = 2 * (LengthToInt(len(k0), 3) + LengthToInt(len(k1), 3));
  if ((int)M.GetElementDataOld(2).size() != sz * ne || (int)M.GetElementDataNew(2).size() != sz * ne) return 1;
  double* a = M.GetElementDataNew(2).data();
  for (int i = 0; i < sz * ne; ++i) a[i] = d[i];
  M.output_element_component_labels_[2].push_back(GetComponentLabels(AddIntegrationPointPrefix(label(f + 3), p + 1), len(k[f]), 3)[q]);
  std::map<int, std::vector<std::vector<double>>> out;
  M.GetElementDataForOutput(out);
  if (out[1].size() != 0 || out[2].size() != 1 || (int)out[2][0].size() != ne) return 2;
  for (int i = 0; i < ne; ++i) o[i] = out[2][0][i];
  return 0;
}
