// the reduction over ranks: the cliques of ranks that share nodes, packing, summing, unpacking
#include <mpi.h>
#include <cstring>
#include <vector>
#include "w.h"

// a communicator: what the other ranks of it add, and how often a test finds the sum unfinished
struct comm_t
{
  const double* others;
  int           delay;
  const double* send;
  double*       recv;
  int           n;
  int           size;
  const int*    ranks;
};
static comm_t comms_[64];
static comm_t* of(MPI_Comm c) { return reinterpret_cast<comm_t*>(c); }
static MPI_Comm as_comm(comm_t* c) { return reinterpret_cast<MPI_Comm>(c); }
static int started_;
// the sum happens when it is found to be finished: the buffers have to stay as they are until then
extern "C" int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q)
{
  if (t != MPI_DOUBLE || o != MPI_SUM) return 1;
  of(c)->send = static_cast<const double*>(s);
  of(c)->recv = static_cast<double*>(r);
  of(c)->n    = n;
  *q          = reinterpret_cast<MPI_Request>(of(c));
  ++started_;
  return 0;
}
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
  if (t != MPI_DOUBLE || o != MPI_SUM) return 1;
  for (int i = 0; i < n; ++i) static_cast<double*>(r)[i] = static_cast<const double*>(s)[i] + of(c)->others[i];
  return 0;
}
extern "C" int MPI_Test(MPI_Request* q, int* flag, MPI_Status*)
{
  comm_t* c = reinterpret_cast<comm_t*>(*q);
  if (c->delay > 0) { --c->delay; *flag = 0; return 0; }
  for (int i = 0; i < c->n; ++i) c->recv[i] = c->send[i] + c->others[i];
  *flag = 1;
  return 0;
}
// ranks played one after the other: rank_ is the one whose turn it is
static int rank_, nranks_, calls_, ncliques_;
static const int *counts_, *all_;
static int *result_, *member_;
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = rank_; return 0; }
extern "C" int MPI_Comm_size(MPI_Comm c, int* n) { *n = c == MPI_COMM_WORLD ? nranks_ : of(c)->size; return 0; }
extern "C" int MPI_Allgather(const void* s, int, MPI_Datatype, void* r, int, MPI_Datatype, MPI_Comm c)
{
  if (c == MPI_COMM_WORLD) for (int k = 0; k < nranks_; ++k) static_cast<int*>(r)[k] = counts_[k];
  else for (int k = 0; k < of(c)->size; ++k) static_cast<int*>(r)[k] = of(c)->ranks[k];
  return 0;
}
extern "C" int MPI_Gatherv(const void*, int, MPI_Datatype, void* r, const int* n, const int* d, MPI_Datatype, int root, MPI_Comm)
{
  if (rank_ == root) {
    int p = 0;
    for (int k = 0; k < nranks_; ++k) for (int j = 0; j < n[k]; ++j) static_cast<int*>(r)[d[k] + j] = all_[p++];
  }
  return 0;
}
extern "C" int MPI_Scatterv(const void* s, const int* n, const int* d, MPI_Datatype, void* r, int m, MPI_Datatype, int root, MPI_Comm)
{
  int p = 0;
  if (rank_ == root) for (int k = 0; k < nranks_; ++k) for (int j = 0; j < n[k]; ++j) result_[p++] = static_cast<const int*>(s)[d[k] + j];
  p = 0;
  for (int k = 0; k < rank_; ++k) p += counts_[k];
  for (int j = 0; j < m; ++j) static_cast<int*>(r)[j] = result_[p + j];
  return 0;
}
extern "C" int MPI_Bcast(void* b, int, MPI_Datatype, int root, MPI_Comm)
{
  if (rank_ == root) ncliques_ = *static_cast<int*>(b); else *static_cast<int*>(b) = ncliques_;
  return 0;
}
// every rank has to make the same calls in the same order; those of one call with the same colour share a communicator
extern "C" int MPI_Comm_split(MPI_Comm, int color, int, MPI_Comm* n)
{
  if (color == MPI_UNDEFINED) *n = MPI_COMM_NULL;
  else { *n = as_comm(&comms_[calls_]); member_[calls_ * nranks_ + rank_] = color; }
  ++calls_;
  return 0;
}
#include "nimble.mpi.reduction.cc"
#include "nimble_view.h"
using namespace nimble;
using namespace nimble::reduction;

API int r_pack(int fs, int nn, double* data, int n, const int* idx, double* others, const int* w, const int* own)
{
  TRY
  comm_t* c = &comms_[0];
  c->others = others;
  ReductionClique_t q(std::vector<int>(idx, idx + n), 3 * n, as_comm(c));
  if (fs == 1) q.reduce<1>(data);
  if (fs == 2) q.reduce<2>(data);
  if (fs == 3) q.reduce<3>(data);
  return 0;
  CATCH(ABORTED)
}
// nc cliques, with fs values per node, in an array or through a view
API int r_reduce(int fs, int view, int nn, double* data, int nc, int n0, const int* i0, const double* o0, int d0, int n1, const int* i1, const double* o1, int d1, const int* w, const int* own)
{
  TRY
  const int     n[2] = {n0, n1}, d[2] = {d0, d1};
  const int*    idx[2] = {i0, i1};
  const double* o[2]   = {o0, o1};
  ReductionInfo r;
  for (int k = 0; k < nc; ++k) {
    comms_[k].others = o[k];
    comms_[k].delay  = d[k];
    r.cliques.emplace_back(std::vector<int>(idx[k], idx[k] + n[k]), 3 * n[k], as_comm(&comms_[k]));
  }
  if (view) {
    Viewify<2> v(data, {nn, fs}, {fs, 1});
    r.PerformReduction(v, fs);
  } else
    r.PerformReduction(data, fs);
  return 0;
  CATCH(ABORTED)
}
API int r_owner(int n, const int* idx, int size, const int* ranks, int m, const int* jdx, int size2, const int* ranks2, int* out, int* rank)
{
  comms_[0].size = size;
  comms_[0].ranks = ranks;
  comms_[1].size = size2;
  comms_[1].ranks = ranks2;
  ReductionInfo r;
  r.cliques.emplace_back(std::vector<int>(idx, idx + n), 3 * n, as_comm(&comms_[0]));
  r.cliques.emplace_back(std::vector<int>(jdx, jdx + m), 3 * m, as_comm(&comms_[1]));
  std::vector<int> a, b;
  r.GetAllIndices(a, b);
  for (size_t k = 0; k < a.size(); ++k) out[k] = a[k];
  for (size_t k = 0; k < b.size(); ++k) rank[k] = b[k];
  return (int)a.size();
}
// the cliques of all ranks: for every node of every rank the communicator that reduces it (-1: none) and its place in it
API int r_group(int nranks, const int* counts, const int* gids, int* comm, int* place, int* twice, int* size, int* member, int* splits)
{
  TRY
  std::vector<int> result(1000);
  nranks_ = nranks;
  counts_ = counts;
  all_    = gids;
  result_ = result.data();
  member_ = member;
  for (int k = 0; k < 64 * nranks; ++k) member[k] = size[k] = -1;
  int p = 0;
  for (rank_ = 0; rank_ < nranks; ++rank_) {
    calls_ = 0;
    mpicontext context(MPI_COMM_WORLD);
    ReductionInfo* r = GenerateReductionInfo(std::vector<int>(gids + p, gids + p + counts[rank_]), context);
    splits[rank_] = calls_;
    for (int j = 0; j < counts[rank_]; ++j) { comm[p + j] = place[p + j] = -1; twice[p + j] = 0; }
    for (auto& c : r->cliques) {
      int k = (int)(of(c.clique_comm) - comms_);
      size[k * nranks + rank_] = c.n_indices;
      for (int j = 0; j < c.n_indices; ++j) {
        if (comm[p + c.indices[j]] != -1) twice[p + c.indices[j]] = 1;
        comm[p + c.indices[j]]  = k;
        place[p + c.indices[j]] = j;
      }
    }
    p += counts[rank_];
  }
  return 0;
  CATCH(ABORTED)
}
