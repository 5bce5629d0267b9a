// The Open MPI here is broken for neighbour collectives on distributed graphs
// created from Cartesian communicators (the library documents this next to
// NP_MPI_Neighbor_alltoall). Replace them by point-to-point messages with the
// semantics of the standard, so that only the library is under test.
#pragma once
#include <map>
#include <mpi.h>
#include <vector>

namespace mpifix {
struct Graph {
  int in{0}, out{0}, w{0};
  std::vector<int> src, dst, a, b;
  MPI_Comm comm; // messages never meet those of other neighbour calls
  Graph(MPI_Comm c) : comm(c) {
    MPI_Dist_graph_neighbors_count(c, &in, &out, &w);
    src.resize(in + 1), a.resize(in + 1);
    dst.resize(out + 1), b.resize(out + 1);
    MPI_Dist_graph_neighbors(c, in, src.data(), a.data(), out, dst.data(),
                             b.data());
  }
};
} // namespace mpifix

extern "C" __attribute__((visibility("default"), used)) int
MPI_Neighbor_alltoallw(const void *sb, const int sc[], const MPI_Aint sd[],
                       const MPI_Datatype st[], void *rb, const int rc[],
                       const MPI_Aint rd[], const MPI_Datatype rt[],
                       MPI_Comm comm) {
  mpifix::Graph g(comm);
  std::vector<MPI_Request> q(g.in + g.out + 1);
  std::map<int, int> tr, ts; // the i-th edge between two ranks
  for (int i = 0; i < g.in; i++)
    PMPI_Irecv((char *)rb + rd[i], rc[i], rt[i], g.src[i],
               32000 + tr[g.src[i]]++, comm, &q[i]);
  for (int i = 0; i < g.out; i++)
    PMPI_Isend((const char *)sb + sd[i], sc[i], st[i], g.dst[i],
               32000 + ts[g.dst[i]]++, comm, &q[g.in + i]);
  return PMPI_Waitall(g.in + g.out, q.data(), MPI_STATUSES_IGNORE);
}

extern "C" __attribute__((visibility("default"), used)) int
MPI_Neighbor_alltoall(const void *sb, int sc, MPI_Datatype st, void *rb, int rc,
                      MPI_Datatype rt, MPI_Comm comm) {
  mpifix::Graph g(comm);
  std::vector<int> scs(g.out + 1, sc), rcs(g.in + 1, rc);
  std::vector<MPI_Aint> sd(g.out + 1), rd(g.in + 1);
  std::vector<MPI_Datatype> sts(g.out + 1, st), rts(g.in + 1, rt);
  MPI_Aint lb, se, re;
  MPI_Type_get_extent(st, &lb, &se);
  MPI_Type_get_extent(rt, &lb, &re);
  for (int i = 0; i < g.out; i++)
    sd[i] = (MPI_Aint)i * sc * se;
  for (int i = 0; i < g.in; i++)
    rd[i] = (MPI_Aint)i * rc * re;
  return MPI_Neighbor_alltoallw(sb, scs.data(), sd.data(), sts.data(), rb,
                                rcs.data(), rd.data(), rts.data(), comm);
}
