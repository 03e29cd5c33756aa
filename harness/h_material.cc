// materials: the real constructors and the public stress / tangent interface
#include "w.h"
#include "nimble_material.h"
#include "nimble_data_manager.h"
using namespace nimble;
static char dm_[8];
static MaterialParameters mp(double K, double mu, double rho)
{
  MaterialParameters p;
  p.AddParameter("density", rho);
  p.AddParameter("bulk_modulus", K);
  p.AddParameter("shear_modulus", mu);
  return p;
}
template <class M> static void stress(double K, double mu, double rho, int n, double t0, double t1, const double* Fn, const double* F, const double* Sn, double* S)
{
  M m(mp(K, mu, rho));
  Material* b = &m;
  b->GetStress(1, n, t0, t1, Fn, F, Sn, S, nullptr, nullptr, *reinterpret_cast<DataManager*>(dm_), false);
}
template <class M> static void tangent(double K, double mu, double rho, int n, double* C)
{
  M m(mp(K, mu, rho));
  Material* b = &m;
  b->GetTangent(n, C);
}
template <class M> static void props(double K, double mu, double rho, double* r)
{
  M m(mp(K, mu, rho));
  Material* b = &m;
  r[0] = b->GetBulkModulus(); r[1] = b->GetShearModulus(); r[2] = b->GetDensity(); r[3] = b->NumStateVariables();
}
API void m_el_stress(double K, double mu, double rho, int n, double t0, double t1, const double* Fn, const double* F, const double* Sn, double* S)
{ stress<ElasticMaterial>(K, mu, rho, n, t0, t1, Fn, F, Sn, S); }
API void m_nh_stress(double K, double mu, double rho, int n, double t0, double t1, const double* Fn, const double* F, const double* Sn, double* S)
{ stress<NeohookeanMaterial>(K, mu, rho, n, t0, t1, Fn, F, Sn, S); }
API void m_el_tangent(double K, double mu, double rho, int n, double* C) { tangent<ElasticMaterial>(K, mu, rho, n, C); }
API void m_nh_tangent(double K, double mu, double rho, int n, double* C) { tangent<NeohookeanMaterial>(K, mu, rho, n, C); }
API void m_el_props(double K, double mu, double rho, double* r) { props<ElasticMaterial>(K, mu, rho, r); }
API void m_nh_props(double K, double mu, double rho, double* r) { props<NeohookeanMaterial>(K, mu, rho, r); }
