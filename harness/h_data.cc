// data labels and the layout of element data
#include "w.h"
#include <Kokkos_Core.hpp>
namespace Kokkos {
template <class F> void vf_parallel_for(const int n, F const& f) { for (int i = 0; i < n; ++i) f(i); }
inline void vf_atomic_add(double* p, const double v) { *p += v; }
}
#define parallel_for vf_parallel_for
#define atomic_add vf_atomic_add
#include "nimble_element.cc"
#include "nimble_block_base.cc"
#include "nimble_block.cc"
#undef parallel_for
#undef atomic_add
#include "nimble_data_utils.cc"
#include "nimble_genesis_mesh.cc"
#include "nimble_material_factory.cc"
#include "nimble_model_data_base.cc"
#include "nimble_model_data.cc"
#include "nimble_data_manager.h"
using namespace nimble;
static char dm_[4096];

#ifdef NATIVE
extern "C" double vf_vol(double a, double b, double c) { return 1.0 + 0.5 * a - b + 2 * c; }
extern "C" double vf_avg(double x, double v, double q0, double q1, double q2, double q3, double q4, double q5, double q6, double q7)
{ return x + 0.25 * v + q0 - 2 * q1 + 3 * q2 - 4 * q3 + 5 * q4 - 6 * q5 + 7 * q6 - 8 * q7; }
#else
extern "C" double vf_vol(double a, double b, double c);
extern "C" double vf_avg(double x, double v, double q0, double q1, double q2, double q3, double q4, double q5, double q6, double q7);
#endif
// an element whose volume and averages are arbitrary functions of its coordinates and point data
class GenElement : public HexElement
{
 public:
  void ComputeVolumeAverage(const double* x, int n, const double* q, double& volume, double* ave) const override
  {
    volume = vf_vol(x[0], x[7], x[23]);
    for (int i = 0; i < n; ++i) ave[i] = vf_avg(x[1], x[22], q[i], q[n + i], q[2 * n + i], q[3 * n + i], q[4 * n + i], q[5 * n + i], q[6 * n + i], q[7 * n + i]);
  }
};
// a material with nq state variables, two of them with the names that are treated specially
class GenMaterial : public Material
{
 public:
  int nq;
  explicit GenMaterial(int q) : nq(q) {}
  int NumStateVariables() const override { return nq; }
  void GetStateVariableLabel(int k, char l[64]) const override
  {
    const char* n[] = {"alpha", "global_elem_id", "ipt_id", "beta"};
    int i = 0;
    for (; n[k][i]; ++i) l[i] = n[k][i];
    l[i] = 0;
  }
  double GetStateVariableInitialValue(int k) const override { return 3.25 + k; }
  double GetDensity() const override { return 1.0; }
  double GetBulkModulus() const override { return 1.0; }
  double GetShearModulus() const override { return 1.0; }
  void GetTangent(int, double*) const override {}
  void GetStress(int, int, double, double, const double*, const double*, const double*, double*, const double*, double*, DataManager&, bool) override {}
  void GetStress(double, double, Viewify<1, const double>&, Viewify<1, const double>&, Viewify<1, const double>&, Viewify<1>) const override {}
};
static Length len(int k)
{
  switch (k) {
    case 0: return SCALAR;
    case 1: return VECTOR;
    case 2: return SYMMETRIC_TENSOR;
    case 3: return FULL_TENSOR;
    default: return (Length)(k - 3);
  }
}
static std::string text(const int* s)
{
  std::string r;
  for (int i = 0; s[i]; ++i) r.push_back((char)s[i]);
  return r;
}
static int put(const std::string& s, int* o, int at)
{
  for (size_t i = 0; i < s.size(); ++i) o[at++] = (unsigned char)s[i];
  o[at++] = 10;
  return at;
}
// number of components according to LengthToInt
API int l_int(int dim, int k)
{
  TRY
  return LengthToInt(k < 0 ? UNDEFINED_LENGTH : len(k), dim);
  CATCH(ABORTED)
}
// all component labels, one per line
API int l_all(int dim, int k, const int* s, int* o)
{
  std::vector<std::string> l = GetComponentLabels(text(s), len(k), dim);
  int at = 0;
  for (size_t i = 0; i < l.size(); ++i) at = put(l[i], o, at);
  return at;
}
// label of one component at one point
API int l_one(int dim, int k, int c, int p, const int* s, int* o)
{
  TRY
  return put(GetComponentLabel(text(s), len(k), dim, c, p), o, 0);
  CATCH(ABORTED)
}
// prefix: with, without and number
API int l_prefix(int p, const int* s, int* o, int* r)
{
  std::string a = text(s), b = AddIntegrationPointPrefix(a, p);
  int at = put(b, o, 0);
  r[0] = LabelToIntegrationPointNumber(b);
  r[1] = HasIntegrationPointPrefix(b);
  r[2] = HasIntegrationPointPrefix(a);
  at = put(RemoveIntegrationPointPrefix(b), o, at);
  return put(RemoveIntegrationPointPrefix(a), o, at);
}
// length of the field a label belongs to
API int l_length(int dim, const int* s)
{
  TRY
  std::map<int, Field> f;
  const char* n[] = {"stress", "ipt02_deformation_gradient", "displacement", "alpha"};
  Length      l[] = {SYMMETRIC_TENSOR, FULL_TENSOR, VECTOR, SCALAR};
  for (int i = 0; i < 4; ++i) { f[i].label_ = n[i]; f[i].length_ = l[i]; f[i].id_ = i; }
  switch (LabelToLength(text(s), f, dim)) {
    case SCALAR: return 0;
    case VECTOR: return 1;
    case SYMMETRIC_TENSOR: return 2;
    case FULL_TENSOR: return 3;
    default: return -1;
  }
  CATCH(ABORTED)
}
// element data of two blocks (the second has nq state variables and ne elements): labels, offsets, initial values; derived data requested in `want`
static void declare(ModelData& M, Block* b, int nq, int ne, const int* want)
{
  M.SetDimension(3);
  std::map<int, int> n;
  for (int k = 0; k < 2; ++k) {
    b[k].element_  = std::make_shared<GenElement>();
    b[k].material_ = std::make_shared<GenMaterial>(k ? nq : 1);
    std::vector<std::pair<std::string, Length>> l;
    b[k].GetDataLabelsAndLengths(l);
    M.DeclareElementData(3 + k, l);
    n[3 + k] = k ? ne : 1;
  }
  M.AllocateElementData(n);
  std::vector<std::string>& d = M.derived_output_element_data_labels_.at(4);
  std::string s;
  for (; *want; ++want)
    if (*want == ' ') { d.push_back(s); s.clear(); }
    else s.push_back((char)*want);
}
API int d_init(int nq, int ne, const int* ids, const int* want, double* n, double* np1, int* F, int* S, int* Q, int* o)
{
  ModelData M;
  Block     b[2];
  declare(M, b, nq, ne, want);
  int sz = 8 * (15 + nq);
  std::vector<double> &a = M.GetElementDataOld(4), &c = M.GetElementDataNew(4);
  const std::vector<std::string>& l = M.element_component_labels_.at(4);
  if ((int)l.size() != sz || (int)a.size() != sz * ne || (int)c.size() != sz * ne) return 1;
  MaterialFactory* f = nullptr;
  std::vector<int> g(ids, ids + ne);
  b[1].InitializeElementData(ne, g, l, M.derived_output_element_data_labels_.at(4), a, c, *f, *reinterpret_cast<DataManager*>(dm_));
  for (int i = 0; i < sz * ne; ++i) { n[i] = a[i]; np1[i] = c[i]; }
  if (b[1].def_grad_offset_.size() != 72 || b[1].stress_offset_.size() != 48 || (int)b[1].state_data_offset_.size() != 8 * nq) return 2;
  for (int i = 0; i < 72; ++i) F[i] = b[1].def_grad_offset_[i];
  for (int i = 0; i < 48; ++i) S[i] = b[1].stress_offset_[i];
  for (int i = 0; i < 8 * nq; ++i) Q[i] = b[1].state_data_offset_[i];
  int at = 0;
  for (int i = 0; i < 15 + nq; ++i) at = put(l[i], o, at);
  at = put(l[sz - 1], o, at);
  return -at;
}
// derived data: volume and averages of the requested data
API int d_derive(int nq, int nn, int ne, const int* want, int nw, const int* conn, const double* X, const double* u, const double* q, double* r0, double* r1, double* r2)
{
  ModelData M;
  Block     b[2];
  declare(M, b, nq, 1, want);
  const std::vector<std::string>& w = M.derived_output_element_data_labels_.at(4);
  b[1].DetermineDataOffsets(M.element_component_labels_.at(4), w);
  int                              sz = 8 * (15 + nq);
  std::vector<std::vector<double>> d;
  std::vector<double>              qv(q, q + sz * ne);
  b[1].ComputeDerivedElementData(X, u, ne, conn, sz, qv, (int)w.size(), d);
  if ((int)d.size() != nw || (int)w.size() != nw) return 1;
  double* r[] = {r0, r1, r2};
  for (int i = 0; i < nw; ++i) {
    if ((int)d[i].size() != ne) return 2;
    for (int j = 0; j < ne; ++j) r[i][j] = d[i][j];
  }
  return 0;
}
// requested output: nodal, element and derived labels of the two blocks, one per line
API int d_request(const int* want, int* o)
{
  TRY
  ModelData M;
  Block     b[2];
  M.AllocateNodeData(VECTOR, "displacement", 1);
  M.AllocateNodeData(SCALAR, "lumped_mass", 1);
  int nothing = 0;
  declare(M, b, 2, 1, &nothing);
  M.SpecifyOutputFields(text(want));
  int at = 0;
  for (auto& s : M.output_node_component_labels_) at = put(s, o, at);
  for (int k = 3; k < 5; ++k) {
    o[at++] = '-'; o[at++] = 10;
    for (auto& s : M.output_element_component_labels_.at(k)) at = put(s, o, at);
    o[at++] = '/'; o[at++] = 10;
    for (auto& s : M.derived_output_element_data_labels_.at(k)) at = put(s, o, at);
  }
  return at;
  CATCH(ABORTED)
}
