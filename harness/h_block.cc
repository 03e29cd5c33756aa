// Block: assembly of element contributions.  nimble_block.cc is compiled as is; only
// the two Kokkos run-time primitives it uses get a body here (their assumed contract):
// parallel_for(n, f) calls f(i) once for every i in [0, n), atomic_add(p, v) adds v to *p.
#include "w.h"
#include <Kokkos_Core.hpp>
double* vf_base;    // with a shadow array, atomic additions to vf_base[i] go to vf_shadow[i]
double* vf_shadow;
namespace Kokkos {
template <class F> void vf_parallel_for(const int n, F const& f) { for (int i = 0; i < n; ++i) f(i); }
inline void vf_atomic_add(double* p, const double v) { if (vf_shadow) vf_shadow[p - vf_base] += v; else *p += v; }
}
#define parallel_for vf_parallel_for
#define atomic_add vf_atomic_add
#include "nimble_block_base.cc"
#include "nimble_block.cc"
#undef parallel_for
#undef atomic_add
#include "nimble_data_manager.h"
using namespace nimble;
static char dm_[8];

#ifdef NATIVE
static double gc(int k, int i) { return ((k * 7 + i * 13 + (k + 1) * (i + 2) % 5) % 17 - 8) / 8.0; }
extern "C" double vf_mat(int kind, const double* a)   // component `kind` of the generic material response
{
  double r = 0;
  for (int i = 0; i < 30; ++i) r += gc(kind, i) * a[i];
  return r;
}
#else
extern "C" double vf_mat(int kind, const double* a);
#endif

// a material about which nothing is known: stress and state at a point are uninterpreted
// functions of everything the interface provides at that point
class GenMaterial : public Material
{
 public:
  int nq; double K, rho;
  GenMaterial(int q, double k, double r) : nq(q), K(k), rho(r) {}
  int NumStateVariables() const override { return nq; }
  void GetStateVariableLabel(int index, char label[64]) const override { label[0] = 'q'; label[1] = 'a' + index; label[2] = 0; }
  double GetStateVariableInitialValue(int index) const override { return 3.25 + index; }
  double GetDensity() const override { return rho; }
  double GetBulkModulus() const override { return K; }
  double GetShearModulus() const override { return 0.5 * K; }
  void GetTangent(int n, double* t) const override
  {
    for (int i = 0; i < 36 * n; ++i) t[i] = K * ((i * 7 + i / 36) % 11 - 4);
  }
  void GetStress(int id, int n, double t0, double t1, const double* Fn, const double* F, const double* Sn, double* S, const double* qn, double* q,
                 DataManager&, bool out) override
  {
    for (int p = 0; p < n; ++p) {
      double a[30];
      for (int i = 0; i < 9; ++i) { a[i] = Fn[9 * p + i]; a[9 + i] = F[9 * p + i]; }
      for (int i = 0; i < 6; ++i) a[18 + i] = Sn[6 * p + i];
      for (int i = 0; i < 2; ++i) a[24 + i] = i < nq ? qn[nq * p + i] : 0.0;
      a[26] = t0; a[27] = t1; a[28] = id; a[29] = out ? 1.0 : 0.0;
      for (int i = 0; i < 6; ++i) S[6 * p + i] = vf_mat(i, a);
      for (int i = 0; i < nq; ++i) q[nq * p + i] = vf_mat(6 + i, a);
    }
  }
  void GetStress(double, double, Viewify<1, const double>&, Viewify<1, const double>&, Viewify<1, const double>&, Viewify<1>) const override {}
};
static void setup(Block& b, int nq, double K, double rho)
{
  b.element_  = std::make_shared<HexElement>();
  b.material_ = std::make_shared<GenMaterial>(nq, K, rho);
}

API void b_mass(double rho, int nn, int ne, const double* X, const int* conn, double* m)
{
  Block b;
  setup(b, 0, 1.0, rho);
  b.ComputeLumpedMassMatrix(X, ne, conn, m);
}
API double b_dt(double K, double rho, int nn, int ne, double* X, double* u, const int* conn)
{
  Block b;
  setup(b, 0, K, rho);
  BlockBase* p = &b;
  return p->ComputeCriticalTimeStep(Viewify<2>(X, {nn, 3}, {3, 1}), Viewify<2>(u, {nn, 3}, {3, 1}), ne, conn);
}
// element data laid out per integration point as F(9) S(6) q(nq), or the reverse of that
static void layout(Block& b, int nq, bool rev)
{
  int w = 15 + nq, nd = 8 * w;
  for (int p = 0; p < 8; ++p) {
    for (int i = 0; i < 9; ++i) b.def_grad_offset_.push_back(rev ? nd - 1 - (p * w + i) : p * w + i);
    for (int i = 0; i < 6; ++i) b.stress_offset_.push_back(rev ? nd - 1 - (p * w + 9 + i) : p * w + 9 + i);
    for (int i = 0; i < nq; ++i) b.state_data_offset_.push_back(rev ? nd - 1 - (p * w + 15 + i) : p * w + 15 + i);
  }
}
static void force(int nq, bool rev, int nn, int ne, const double* X, const double* u, const int* conn, const int* gid, double t0, double t1,
                  int out, int stress_only, const double* dn, double* dnp1, double* f)
{
  Block b;
  setup(b, nq, 1.0, 1.0);
  layout(b, nq, rev);
  int                      nd = 8 * (15 + nq);
  std::vector<std::string> labels(nd);
  std::vector<double>      vn(dn, dn + nd * ne), vnp1(dnp1, dnp1 + nd * ne);
  b.ComputeInternalForce(X, u, nullptr, f, t0, t1, ne, conn, gid, labels, vn, vnp1, *reinterpret_cast<DataManager*>(dm_), out != 0, stress_only != 0);
  for (int i = 0; i < nd * ne; ++i) dnp1[i] = vnp1[i];
}
#define FORCE(NAME, NQ, REV)                                                                                                                  \
  API void NAME(int nn, int ne, const double* X, const double* u, const int* conn, const int* gid, double t0, double t1, int out, int so,     \
                const double* dn, double* dnp1, double* f)                                                                                    \
  { force(NQ, REV, nn, ne, X, u, conn, gid, t0, t1, out, so, dn, dnp1, f); }
FORCE(b_force0, 0, false)
FORCE(b_force2, 2, false)
FORCE(b_force2r, 2, true)
API void b_force_atomic(int nn, int ne, const double* X, const double* u, const int* conn, const int* gid, double t0, double t1,
                        const double* dn, double* dnp1, double* f, double* shadow)
{
  vf_base = f; vf_shadow = shadow;
  force(0, false, nn, ne, X, u, conn, gid, t0, t1, 0, 0, dn, dnp1, f);
  vf_base = vf_shadow = nullptr;
}

// tangent stiffness: the matrix entries are added through the real container; which entry
// an index pair denotes is FindIndex's contract (C14)
API void b_tangent(double K, int nn, int ne, const double* X, const double* u, const int* conn, const int* gid, int nr, int nnz, const int* i, const int* j,
                   const int* first, double* a)
{
  Block b;
  setup(b, 0, K, 1.0);
  CRSMatrixContainer c;
  c.num_rows_ = nr;
  c.data_.assign(a, a + nnz);
  c.i_index_.assign(i, i + nnz);
  c.j_index_.assign(j, j + nnz);
  c.row_first_index_.assign(first, first + nr + 1);
  b.ComputeTangentStiffnessMatrix(nr, X, u, ne, conn, gid, c);
  for (int k = 0; k < nnz; ++k) a[k] = c.data_[k];
}
