// Emulates shared memory nodes: the split of a communicator into shared memory
// regions is replaced by one into groups chosen by the case.
#pragma once
#include <mpi.h>
#include <vector>
namespace np {
// node of each rank of MPI_COMM_WORLD; empty: the real layout.
inline std::vector<int> &node_layout() {
  static std::vector<int> l;
  return l;
}
template <typename G> inline void gen_nodes(G &g, int nranks) {
  auto &l = node_layout();
  l.clear();
  if (nranks == 1 || g.chance(1, 3))
    return;
  const int k = (int)g.draw(3);
  for (int r = 0; r < nranks; r++)
    l.push_back(k == 0 ? r / 2 : k == 1 ? r % 2 : r);
  g.note("nodes: ", k == 0 ? "blocks of two" : k == 1 ? "interleaved" : "one rank each");
}
} // namespace np
extern "C" inline __attribute__((used)) int
MPI_Comm_split_type(MPI_Comm comm, int type, int key, MPI_Info info,
                    MPI_Comm *out) {
  auto &l = np::node_layout();
  if (l.empty() || type != MPI_COMM_TYPE_SHARED)
    return PMPI_Comm_split_type(comm, type, key, info, out);
  int r;
  PMPI_Comm_rank(MPI_COMM_WORLD, &r);
  return PMPI_Comm_split(comm, l[r], key, out);
}
