#include "w.h"
#include "nimble_element.h"
using nimble::HexElement;

// exposes the protected shape-function routines of the real class
struct HexX : public HexElement
{
  void V(const double* x, double* y) { ShapeFunctionValues(x, y); }
  void D(const double* x, double* y) { ShapeFunctionDerivatives(x, y); }
};

static void
tables(HexElement& e, const double* N, const double* D, const double* W)
{
  if (N)
    for (int i = 0; i < 64; ++i) e.shape_fcn_vals_[i] = N[i];
  for (int i = 0; i < 192; ++i) e.shape_fcn_deriv_[i] = D[i];
  for (int i = 0; i < 8; ++i) e.int_wts_[i] = W[i];
}

API void el_tables(double* pts, double* wts, double* vals, double* derivs)
{
  HexElement e;
  for (int i = 0; i < 24; ++i) pts[i] = e.int_pts_[i];
  for (int i = 0; i < 8; ++i) wts[i] = e.int_wts_[i];
  for (int i = 0; i < 64; ++i) vals[i] = e.shape_fcn_vals_[i];
  for (int i = 0; i < 192; ++i) derivs[i] = e.shape_fcn_deriv_[i];
}
API void el_sizes(int* r)
{
  HexElement e;
  nimble::Element* b = &e;
  r[0] = b->Dim(); r[1] = b->NumNodesPerElement(); r[2] = b->NumIntegrationPointsPerElement();
}
API void el_values(const double* pts, double* vals) { HexX e; e.V(pts, vals); }
API void el_derivs(const double* pts, double* derivs) { HexX e; e.D(pts, derivs); }

API void el_defgrad(const double* D, const double* W, const double* X, const double* x, double* F)
{
  HexElement e;
  tables(e, nullptr, D, W);
  static_cast<nimble::Element*>(&e)->ComputeDeformationGradients(X, x, F);
}
API void el_force(const double* D, const double* W, const double* x, const double* S, double* f)
{
  HexElement e;
  tables(e, nullptr, D, W);
  static_cast<nimble::Element*>(&e)->ComputeNodalForces(x, S, f);
}
API void el_mass(const double* N, const double* D, const double* W, double density, const double* X, double* m)
{
  HexElement e;
  tables(e, N, D, W);
  static_cast<nimble::Element*>(&e)->ComputeLumpedMass(density, X, m);
}
API double el_volave(const double* D, const double* W, int nq, const double* x, const double* q, double* ave)
{
  HexElement e;
  tables(e, nullptr, D, W);
  double vol = -1.0;
  static_cast<nimble::Element*>(&e)->ComputeVolumeAverage(x, nq, q, vol, ave);
  return vol;
}
API double el_charlen(const double* x)
{
  HexElement e;
  return static_cast<nimble::Element*>(&e)->ComputeCharacteristicLength(x);
}
API void el_tangent(const double* D, const double* W, const double* x, const double* C, double* K)
{
  HexElement e;
  tables(e, nullptr, D, W);
  static_cast<nimble::Element*>(&e)->ComputeTangent(x, C, K);
}
