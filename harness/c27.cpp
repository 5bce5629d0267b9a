// C27: transfers between coupled meshes are the linear maps they were given.
#include "mpifix.hpp"
#include "plexmesh.hpp"
#include <neso_particles/external_interfaces/petsc/dmplex_mesh_coupler_dg0.hpp>
using namespace np;
using namespace PetscInterface;

namespace {

struct Entry {
  int rank_a, a, element;
  double wf, wb;
};

void prop(Gen &g) {
  PlexMesh m;
  PlexMesh::Opts o;
  o.max_n = 5;
  m.make(g, o);
  if (!m.identify(g)) {
    g.sync();
    return;
  }
  const int nr = nranks(), me = rank();
  const uint64_t salt = g.seed32();
  // global ids of the elements
  const int ne = (int)m.c.size();
  std::vector<int> gid(ne, -1);
  for (int k = 0; k < (int)m.element[me].size(); k++)
    gid[m.element[me][k]] = (int)m.mesh->dmh->get_point_global_index(m.mesh->dmh->get_dmplex_cell_index(k));
  MPI_Allreduce(MPI_IN_PLACE, gid.data(), ne, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  auto [base, owners] = get_map_from_global_cell_points_to_ranks(m.dm);
  g.ck((int)owners.size() == ne, "the map of the owners has ", owners.size(), " entries for ", ne, " cells");
  for (int e = 0; e < ne && !g.failed; e++)
    g.ck(gid[e] >= base && gid[e] - base < (int)owners.size() && owners[gid[e] - base] == m.part[e], "the owner of cell ", gid[e], " is rank ", m.part[e]);
  // the other mesh has any number of cells on each rank, and any couplings
  const int amax = (int)g.size(0, 20);
  const int density = (int)g.draw(4); // none, few, some, many
  const bool mono = g.boolean();      // couple with few ranks only
  std::vector<Entry> E;
  std::vector<int> na(nr);
  for (int r = 0; r < nr; r++) {
    na[r] = (int)(pbt::hash(salt, r, 1) % (amax + 1));
    for (int a = 0; a < na[r]; a++) {
      const int n = density == 0 ? (int)(pbt::hash(salt, r, a, 2) % 2) : density == 1 ? (int)(pbt::hash(salt, r, a, 2) % 3) : (int)(pbt::hash(salt, r, a, 2) % (density == 2 ? 5 : 12));
      for (int k = 0; k < n; k++) {
        const uint64_t h = pbt::hash(salt, r * 1000 + a, k, 3);
        Entry x{r, a, (int)(h % ne), (double)((int)((h >> 20) % 17) - 8), (double)((int)((h >> 30) % 17) - 8)};
        if (mono && m.part[x.element] != (int)(pbt::hash(salt, r, 4) % nr))
          continue;
        E.push_back(x); // the same pair may appear several times
      }
    }
  }
  std::vector<std::vector<DMPlexMeshCouplerDG0MapEntry>> cmap(na[me]);
  for (auto &x : E)
    if (x.rank_a == me)
      cmap[x.a].push_back({gid[x.element], x.wf, x.wb});
  DMPlexMeshCouplerDG0 coupler(m.dm, cmap);
  cmap.clear();
  cmap.shrink_to_fit();
  const int steps = (int)g.size(1, 6);
  g.note("cells here ", na[me], " couplings ", E.size(), " steps ", steps);
  for (int s = 0; s < steps && !g.failed; s++) {
    const int ncomp = (int)g.integer(1, 4);
    const bool fwd = g.boolean();
    const int extra = (int)g.draw(3);
    auto va = [&](int r, int a, int c) { return (double)((int)(pbt::hash(salt, r * 100 + a, c, 50 + s) % 2001) - 1000); };
    auto vb = [&](int e, int c) { return (double)((int)(pbt::hash(salt, e, c, 70 + s) % 2001) - 1000); };
    std::vector<REAL> A(na[me] * ncomp + extra, 777.0), B(m.element[me].size() * ncomp + extra, 555.0);
    for (int a = 0; a < na[me]; a++)
      for (int c = 0; c < ncomp; c++)
        if (fwd)
          A[a * ncomp + c] = va(me, a, c);
    for (int k = 0; k < (int)m.element[me].size(); k++)
      for (int c = 0; c < ncomp; c++)
        if (!fwd)
          B[k * ncomp + c] = vb(m.element[me][k], c);
    const auto A0 = A, B0 = B;
    if (fwd) {
      coupler.forward_transfer(A, ncomp, B);
      g.ck(same(A, A0), "the forward transfer changed its source");
      std::map<std::pair<int, int>, double> want;
      for (auto &x : E)
        for (int c = 0; c < ncomp; c++)
          want[{x.element, c}] += x.wf * va(x.rank_a, x.a, c);
      for (int k = 0; k < (int)m.element[me].size(); k++)
        for (int c = 0; c < ncomp; c++) {
          const double w = want.count({m.element[me][k], c}) ? want[{m.element[me][k], c}] : 0.0;
          g.ck(B[k * ncomp + c] == w, "forward step ", s, " cell ", k, " component ", c, ": ", B[k * ncomp + c], ", expected ", w);
        }
    } else {
      coupler.backward_transfer(B, ncomp, A);
      g.ck(same(B, B0), "the backward transfer changed its source");
      std::vector<double> want(na[me] * ncomp, 0.0);
      for (auto &x : E)
        if (x.rank_a == me)
          for (int c = 0; c < ncomp; c++)
            want[x.a * ncomp + c] += x.wb * vb(x.element, c);
      for (int k = 0; k < na[me] * ncomp; k++)
        g.ck(A[k] == want[k], "backward step ", s, " cell ", k / ncomp, " component ", k % ncomp, ": ", A[k], ", expected ", want[k]);
    }
    g.label(fwd ? "forward" : "backward");
    g.sync();
  }
  g.mark(E.size() >= 2);
  coupler.free();
  g.sync();
}

} // namespace

PBT_MAIN("C27", prop)
