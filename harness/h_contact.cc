// contact: the entities, their geometry and forces, the projections, the enforcement
#include "w.h"
#ifdef NATIVE
// classes that are named but never used here
__asm__(".weak _ZTIN6nimble13ModelDataBaseE\n.weak _ZTIN13nimble_kokkos9ModelDataE\n");
#endif
#include <Kokkos_Core.hpp>
#include <Kokkos_DualView.hpp>
#ifdef NATIVE
static void start() { if (!Kokkos::is_initialized()) Kokkos::initialize(); }
#else
static void start() {}
__thread int Kokkos::Impl::SharedAllocationRecord<void, void>::t_tracking_enabled = 1;
#endif
#include <mpi.h>
// this rank's number, the number of ranks, and what the other ranks add to a sum
static int rank_ = 0, ranks_ = 1;
static double others_ = 0;
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = rank_; return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int* n) { *n = ranks_; return 0; }
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm)
{
  for (int i = 0; i < n; ++i) {
    if (t == MPI_DOUBLE && o == MPI_SUM) static_cast<double*>(r)[i] = static_cast<const double*>(s)[i] + others_;
    if (t == MPI_INT && o == MPI_MAX) { static_cast<int*>(r)[i] = static_cast<const int*>(s)[i]; if (others_ > static_cast<int*>(r)[i]) static_cast<int*>(r)[i] = (int)others_; }
  }
  return 0;
}
namespace Kokkos {
template <class F> void vf_parallel_for(const char*, const int n, F const& f) { for (int i = 0; i < n; ++i) f(i); }
inline void vf_atomic_add(double* p, const double v) { *p += v; }
inline void vf_atomic_assign(bool* p, const bool v) { *p = v; }
inline void vf_atomic_min_fetch(double* p, const double v) { if (v < *p) *p = v; }
inline void vf_atomic_max_fetch(double* p, const double v) { if (*p < v) *p = v; }
template <class V> inline void vf_copy_into(const V& v, const double x, int) { for (int i = 0; i < (int)v.span(); ++i) v.data()[i] = x; }
template <class V, class W> inline auto vf_copy_into(const V& v, const W& w, long) -> decltype((void)w.data()) { for (int i = 0; i < (int)v.span(); ++i) v.data()[i] = w.data()[i]; }
template <class V, class W> inline void vf_deep_copy(const V& v, const W& w) { vf_copy_into(v, w, 0); }
}
#define parallel_for vf_parallel_for
#define deep_copy vf_deep_copy
#define atomic_add vf_atomic_add
#define atomic_assign vf_atomic_assign
#define atomic_min_fetch vf_atomic_min_fetch
#define atomic_max_fetch vf_atomic_max_fetch
#include "nimble_contact_entity.cc"
#include "nimble_contact_manager.cc"
#undef parallel_for
#undef deep_copy
#undef atomic_add
#undef atomic_assign
#undef atomic_min_fetch
#undef atomic_max_fetch
using namespace nimble;

static void ent_get(const ContactEntity& e, double* d, int* i)
{
  d[0] = e.coord_1_x_; d[1] = e.coord_1_y_; d[2] = e.coord_1_z_;
  d[3] = e.coord_2_x_; d[4] = e.coord_2_y_; d[5] = e.coord_2_z_;
  d[6] = e.coord_3_x_; d[7] = e.coord_3_y_; d[8] = e.coord_3_z_;
  d[9] = e.force_1_x_; d[10] = e.force_1_y_; d[11] = e.force_1_z_;
  d[12] = e.force_2_x_; d[13] = e.force_2_y_; d[14] = e.force_2_z_;
  d[15] = e.force_3_x_; d[16] = e.force_3_y_; d[17] = e.force_3_z_;
  d[18] = e.char_len_;
  d[19] = e.bounding_box_x_min_; d[20] = e.bounding_box_y_min_; d[21] = e.bounding_box_z_min_;
  d[22] = e.bounding_box_x_max_; d[23] = e.bounding_box_y_max_; d[24] = e.bounding_box_z_max_;
  d[25] = e.centroid_.coords_[0]; d[26] = e.centroid_.coords_[1]; d[27] = e.centroid_.coords_[2];
  i[0] = (int)e.entity_type_; i[1] = e.num_nodes_;
  i[2] = e.node_id_for_node_1_; i[3] = e.node_id_for_node_2_;
  i[4] = e.node_id_1_for_fictitious_node_; i[5] = e.node_id_2_for_fictitious_node_;
  i[6] = e.node_id_3_for_fictitious_node_; i[7] = e.node_id_4_for_fictitious_node_;
  i[8] = e.contact_entity_global_id_; i[9] = e.local_id_; i[10] = e.contact_status_;
}
static void ent_set(ContactEntity& e, const double* d, const int* i)
{
  e.coord_1_x_ = d[0]; e.coord_1_y_ = d[1]; e.coord_1_z_ = d[2];
  e.coord_2_x_ = d[3]; e.coord_2_y_ = d[4]; e.coord_2_z_ = d[5];
  e.coord_3_x_ = d[6]; e.coord_3_y_ = d[7]; e.coord_3_z_ = d[8];
  e.force_1_x_ = d[9]; e.force_1_y_ = d[10]; e.force_1_z_ = d[11];
  e.force_2_x_ = d[12]; e.force_2_y_ = d[13]; e.force_2_z_ = d[14];
  e.force_3_x_ = d[15]; e.force_3_y_ = d[16]; e.force_3_z_ = d[17];
  e.char_len_ = d[18];
  e.bounding_box_x_min_ = d[19]; e.bounding_box_y_min_ = d[20]; e.bounding_box_z_min_ = d[21];
  e.bounding_box_x_max_ = d[22]; e.bounding_box_y_max_ = d[23]; e.bounding_box_z_max_ = d[24];
  e.centroid_.coords_[0] = d[25]; e.centroid_.coords_[1] = d[26]; e.centroid_.coords_[2] = d[27];
  e.entity_type_ = (ContactEntity::CONTACT_ENTITY_TYPE)i[0]; e.num_nodes_ = i[1];
  e.node_id_for_node_1_ = i[2]; e.node_id_for_node_2_ = i[3];
  e.node_id_1_for_fictitious_node_ = i[4]; e.node_id_2_for_fictitious_node_ = i[5];
  e.node_id_3_for_fictitious_node_ = i[6]; e.node_id_4_for_fictitious_node_ = i[7];
  e.contact_entity_global_id_ = i[8]; e.local_id_ = i[9]; e.contact_status_ = i[10] != 0;
}
API int k_make(int type, int gid, int lid, const double* coord, double len, int n1, int n2, const int* nf, double* d, int* i)
{
  ContactEntity e((ContactEntity::CONTACT_ENTITY_TYPE)type, gid, lid, coord, len, n1, n2, nf);
  ent_get(e, d, i);
  return 0;
}
API int k_place(double* d, int* i, int nn, const double* coord)
{
  ContactEntity e;
  ent_set(e, d, i);
  e.SetCoordinates(coord);
  ent_get(e, d, i);
  return 0;
}
API int k_scatter(const double* d, const int* i, int nn, double* force)
{
  ContactEntity e;
  ent_set(e, d, i);
  e.ScatterForceToContactManagerForceVector(force);
  return 0;
}
API int k_scatter_view(const double* d, const int* i, int nn, double* force)
{
  ContactEntity e;
  ent_set(e, d, i);
  nimble_kokkos::DeviceScalarNodeView f(force, 3 * nn);
  e.ScatterForceToContactManagerForceVector(f);
  return 0;
}
API int k_split(double* d, int* i, const double* f, const double* N, int null)
{
  TRY
  ContactEntity e;
  ent_set(e, d, i);
  e.SetNodalContactForces(f, null ? nullptr : N);
  ent_get(e, d, i);
  return 0;
  CATCH(ABORTED)
}
API int k_split_old(double* d, int* i, const double* f, const double* p)
{
  ContactEntity e;
  ent_set(e, d, i);
  e.ComputeNodalContactForces(f, p);
  ent_get(e, d, i);
  return 0;
}
API int k_reset(double* d, int* i, int status, int set)
{
  ContactEntity e;
  ent_set(e, d, i);
  if (set) e.set_contact_status(status != 0); else e.ResetContactData();
  ent_get(e, d, i);
  return e.contact_status();
}
API int k_export(const double* d, const int* i, double* d2, int* i2)
{
  ContactEntity e, x;
  ent_set(e, d, i);
  ent_set(x, d2, i2);
  e.ExportGeometryInto(x);
  ent_get(x, d2, i2);
  return 0;
}
// n faces through the buffer and back
API int k_pack(int n, const double* d, const int* i, double* d2, int* i2)
{
  ContactEntity* a = new ContactEntity[n];
  ContactEntity* b = new ContactEntity[n];
  for (int k = 0; k < n; ++k) { ent_set(a[k], d + 28 * k, i + 11 * k); ent_set(b[k], d2 + 28 * k, i2 + 11 * k); }
  std::vector<char> buf;
  SerializeContactFaces(n, a, buf);
  UnserializeContactFaces(n, b, buf);
  for (int k = 0; k < n; ++k) ent_get(b[k], d2 + 28 * k, i2 + 11 * k);
  return (int)buf.size();
}
API int k_project(const double* nd, const int* ni, const double* td, const int* ti, double tol, int* in, double* gap, double* normal, double* bary)
{
  ContactEntity node, tri;
  ent_set(node, nd, ni);
  ent_set(tri, td, ti);
  bool b = *in != 0;
  ContactManager::Projection(node, tri, b, *gap, normal, bary, tol);
  *in = b;
  return 0;
}
API int k_simple(const double* nd, const int* ni, const double* td, const int* ti, double tol, int* type, double* cp, double* gap, double* normal)
{
  ContactEntity node, tri;
  ent_set(node, nd, ni);
  ent_set(tri, td, ti);
  ContactManager::PROJECTION_TYPE t = ContactManager::NODE_OR_EDGE;
  ContactEntity::vertex c;
  for (int k = 0; k < 3; ++k) c.coords_[k] = cp[k];
  ContactManager::SimpleClosestPointProjectionSingle(node, tri, &t, &c, *gap, normal, tol);
  for (int k = 0; k < 3; ++k) cp[k] = c.coords_[k];
  *type = (int)t;
  return 0;
}
static char cm_[4096];
static ContactManager* raw_cm() { return reinterpret_cast<ContactManager*>(cm_); }
API int k_closest(const double* nd, const int* ni, const double* td, const int* ti, double tol, int* type, double* cp)
{
  ContactEntity node, tri;
  ent_set(node, nd, ni);
  ent_set(tri, td, ti);
  ContactManager::PROJECTION_TYPE t = ContactManager::UNKNOWN;
  ContactEntity::vertex c;
  raw_cm()->ClosestPointProjectionSingle(node, tri, &c, &t, tol);
  for (int k = 0; k < 3; ++k) cp[k] = c.coords_[k];
  *type = (int)t;
  return 0;
}
API double k_edge_t(const double* a, const double* b, const double* p) { return PointEdgeClosestPointFindT(a, b, p); }
API double k_edge_d(const double* a, const double* b, const double* p, double t) { return PointEdgeClosestPointFindDistanceSquared(a, b, p, t); }
API int k_cross(const double* a, const double* b, double* c) { CrossProduct(a, b, c); return 0; }
API double k_area(double a, double b, double c, double d, double e, double f, double g, double h, double i) { return TriangleArea(a, b, c, d, e, f, g, h, i); }
API int k_enforce(const double* nd, const int* ni, const double* td, const int* ti, int nn, int nf, double gap, const double* dir, const double* cp, double penalty, int guard, double* force)
{
  ContactEntity node, tri;
  ent_set(node, nd, ni);
  ent_set(tri, td, ti);
  nimble_kokkos::DeviceScalarNodeView f(force, 3 * nn);
  if (guard) {
    ContactInterface I;
    I.SetUpPenaltyEnforcement(penalty);
    I.SetContactForce(f);
    I.EnforceNodeFaceInteraction(node, tri, nf, gap, dir, cp);
  } else {
    KokkosPenaltyContactEnforcement E;
    E.penalty               = penalty;
    E.contact_manager_force = f;
    E.EnforceContact(node, tri, nf, gap, dir, cp);
  }
  return 0;
}
API int k_penalty(const double* nd, const int* ni, double* td, int* ti, int nn, double gap, const double* normal, const double* bary, double penalty, int view, double* force)
{
  ContactEntity node, tri;
  ent_set(node, nd, ni);
  ent_set(tri, td, ti);
  PenaltyContactEnforcement E;
  E.penalty = penalty;
  if (view) {
    nimble_kokkos::DeviceScalarNodeView f(force, 3 * nn);
    E.EnforceContact(node, tri, gap, normal, bary, f);
  } else
    E.EnforceContact(node, tri, gap, normal, bary, force);
  ent_get(tri, td, ti);
  return 0;
}

// the contact manager on given arrays: nc nodes of the contact model, entities from their slots
static ContactEntity* entities(int n, const double* d, const int* i)
{
  ContactEntity* e = new ContactEntity[n];
  for (int k = 0; k < n; ++k) ent_set(e[k], d + 28 * k, i + 11 * k);
  return e;
}
using SV = nimble_kokkos::DeviceScalarNodeView;
using IV = nimble_kokkos::DeviceIntegerArrayView;
using EV = nimble_kokkos::DeviceContactEntityArrayView;
API int k_move(int nc, int nn, const int* ids, const double* model, double* coord, double* disp)
{
  auto* m = raw_cm();
  new (&m->node_ids_d_) IV(const_cast<int*>(ids), nc);
  new (&m->model_coord_d_) SV(const_cast<double*>(model), 3 * nc);
  new (&m->coord_d_) SV(coord, 3 * nc);
  new (&m->contact_nodes_d_) EV((ContactEntity*)nullptr, 0);
  new (&m->contact_faces_d_) EV((ContactEntity*)nullptr, 0);
  m->ApplyDisplacements(nimble_kokkos::DeviceVectorNodeView(disp, nn));
  return 0;
}
API int k_move_entities(int nc, const int* ids, const double* model, double* coord, double* disp, int ne, double* ed, int* ei, int nf, double* fd, int* fi)
{
  auto* m = raw_cm();
  ContactEntity *E = entities(ne, ed, ei), *Fc = entities(nf, fd, fi);
  new (&m->node_ids_d_) IV(const_cast<int*>(ids), nc);
  new (&m->model_coord_d_) SV(const_cast<double*>(model), 3 * nc);
  new (&m->coord_d_) SV(coord, 3 * nc);
  new (&m->contact_nodes_d_) EV(E, ne);
  new (&m->contact_faces_d_) EV(Fc, nf);
  m->ApplyDisplacements(nimble_kokkos::DeviceVectorNodeView(disp, nc));
  for (int k = 0; k < ne; ++k) ent_get(E[k], ed + 28 * k, ei + 11 * k);
  for (int k = 0; k < nf; ++k) ent_get(Fc[k], fd + 28 * k, fi + 11 * k);
  return 0;
}
API int k_forces(int nc, int nn, const int* ids, double* force, double* out, const int* w)
{
  auto* m = raw_cm();
  new (&m->node_ids_d_) IV(const_cast<int*>(ids), nc);
  new (&m->force_d_) SV(force, 3 * nc);
  m->GetForces(nimble_kokkos::DeviceVectorNodeView(out, nn));
  return 0;
}
API int k_box(int nc, double* coord, double* box)
{
  start();
  auto* m = raw_cm();
  new (&m->coord_d_) SV(coord, 3 * nc);
  m->BoundingBox(box[0], box[1], box[2], box[3], box[4], box[5]);
  return 0;
}
static void set_entities(ContactManager* m, ContactEntity* E, int ne, ContactEntity* Fc, int nf)
{
  new (&m->contact_nodes_d_) EV(E, ne);
  new (&m->contact_faces_d_) EV(Fc, nf);
  new (&m->contact_nodes_h_) nimble_kokkos::HostContactEntityArrayView(E, ne);
  new (&m->contact_faces_h_) nimble_kokkos::HostContactEntityArrayView(Fc, nf);
}
// 0: the forces set to zero, 1: the contact status cleared, 2/3: the number of faces/nodes in contact
API int k_entities(int what, int ne, double* ed, int* ei, int nf, double* fd, int* fi, int nh, double* host, int nc, double* force)
{
  auto* m = raw_cm();
  ContactEntity *E = entities(ne, ed, ei), *Fc = entities(nf, fd, fi);
  set_entities(m, E, ne, Fc, nf);
  new (&m->force_d_) SV(force, 3 * nc);
  new (&m->force_) std::vector<double>(host, host + nh);
  int r = 0;
  if (what == 0) m->ZeroContactForce();
  if (what == 1) m->ResetContactStatus();
  if (what == 2) r = (int)m->numActiveContactFaces();
  if (what == 3) r = (int)m->numActiveContactNodes();
  for (int k = 0; k < ne; ++k) ent_get(E[k], ed + 28 * k, ei + 11 * k);
  for (int k = 0; k < nf; ++k) ent_get(Fc[k], fd + 28 * k, fi + 11 * k);
  for (int k = 0; k < nh; ++k) host[k] = m->force_[k];
  return r;
}
struct Recorder : ContactInterface
{
  int calls, faces, nodes, n;
  double penalty, *in, *out;
  void DoSearchAndEnforcement(EV contact_nodes, EV contact_faces, KokkosPenaltyContactEnforcement e) override
  {
    ++calls;
    nodes   = (int)contact_nodes.extent(0);
    faces   = (int)contact_faces.extent(0);
    penalty = e.penalty;
    for (int k = 0; k < 3 * n; ++k) { in[k] = e.contact_manager_force(k); e.contact_manager_force(k) += out[k]; }
  }
};
// one search: the forces it starts from, and the forces it leaves in the manager
API int k_compute(double penalty, int through, int nc, double* force, double* coord, double* in, double* out, double* pen, int* seen)
{
  TRY
  start();
  auto* m = raw_cm();
  set_entities(m, nullptr, 5, nullptr, 7);
  new (&m->force_d_) SV(force, 3 * nc);
  new (&m->coord_d_) SV(coord, 3 * nc);
  Recorder R;
  R.calls = 0;
  R.n = nc;
  R.in = in;
  R.out = out;
  new (&m->contact_interface) std::shared_ptr<ContactInterface>(std::shared_ptr<void>(), &R);
  if (through) {
    m->SetPenaltyParameter(penalty);
    m->ComputeContactForce(1, false);
  } else {
    R.SetUpPenaltyEnforcement(penalty);
    R.ComputeContact(m->contact_nodes_d_, m->contact_faces_d_, m->force_d_);
  }
  seen[0] = R.calls;
  seen[1] = R.nodes;
  seen[2] = R.faces;
  *pen = R.penalty;
  return 0;
  CATCH(ABORTED)
}
API int k_closest_many(int n, const double* nd, const int* ni, const double* td, const int* ti, double* cp, int* type)
{
  ContactEntity *N = entities(n, nd, ni), *T = entities(n, td, ti);
  ContactEntity::vertex* c = new ContactEntity::vertex[n];
  ContactManager::PROJECTION_TYPE* t = new ContactManager::PROJECTION_TYPE[n];
  raw_cm()->ClosestPointProjection(N, T, c, t, n);
  for (int k = 0; k < n; ++k) {
    for (int j = 0; j < 3; ++j) cp[3 * k + j] = c[k].coords_[j];
    type[k] = (int)t[k];
  }
  return 0;
}
API double k_char_len(int nc, double* coord, int ranks, double others)
{
  start();
  ranks_ = ranks;
  others_ = others;
  auto* m = raw_cm();
  new (&m->coord_d_) SV(coord, 3 * nc);
  return m->BoundingBoxAverageCharacteristicLengthOverAllRanks();
}
API int k_command(int n, const char* text, double* penalty, int* out)
{
  TRY
  std::vector<std::string> a, b;
  ParseContactCommand(std::string(text, n), a, b, *penalty);
  int p = 0;
  out[p++] = (int)a.size();
  out[p++] = (int)b.size();
  for (auto const& s : a) { for (char c : s) out[p++] = c; out[p++] = 0; }
  for (auto const& s : b) { for (char c : s) out[p++] = c; out[p++] = 0; }
  return p;
  CATCH(ABORTED)
}
