// Helpers shared by the harnesses: start-up, a particle model kept on the host,
// snapshots of a ParticleGroup, and their comparison.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <neso_particles.hpp>
#include <numeric>
#include <random>

using namespace NESO::Particles;
using pbt::Gen;

namespace np {

inline SYCLTargetSharedPtr &target_store() {
  static SYCLTargetSharedPtr t;
  return t;
}
inline SYCLTargetSharedPtr &target() {
  auto &t = target_store();
  if (!t)
    t = std::make_shared<SYCLTarget>(GPU_SELECTOR, MPI_COMM_WORLD);
  return t;
}
inline int rank() {
  int r;
  MPI_Comm_rank(MPI_COMM_WORLD, &r);
  return r;
}
inline int nranks() {
  int r;
  MPI_Comm_size(MPI_COMM_WORLD, &r);
  return r;
}

inline void set_param(const std::string &name, std::size_t v) {
  target()->parameters->set(name, std::make_shared<SizeTParameter>(v));
}

// One particle of the model. Values are keyed by property name.
struct Rec {
  int rank{0};
  INT cell{0};
  std::map<std::string, std::vector<REAL>> r;
  std::map<std::string, std::vector<INT>> i;
  bool operator==(const Rec &o) const {
    return rank == o.rank && cell == o.cell && r == o.r && i == o.i;
  }
};
using Model = std::map<INT, Rec>;

struct Row {
  INT cell, layer;
  std::map<std::string, std::vector<REAL>> r;
  std::map<std::string, std::vector<INT>> i;
};

// Everything a group reports about its content on this rank.
inline std::vector<Row> snapshot(Gen &g, ParticleGroupSharedPtr A) {
  std::vector<Row> rows;
  const int ncell = A->domain->mesh->get_cell_count();
  INT total = 0;
  for (int c = 0; c < ncell; c++) {
    const INT n = A->get_npart_cell(c);
    total += n;
    const std::size_t base = rows.size();
    if (!g.ck(n >= 0, "negative cell count in cell ", c))
      return rows;
    rows.resize(base + n);
    for (INT l = 0; l < n; l++) {
      rows[base + l].cell = c;
      rows[base + l].layer = l;
    }
    for (auto &d : A->particle_dats_real) {
      if (!g.ck(d.second->h_npart_cell[c] == n, "property ", d.first.name,
                " has ", d.second->h_npart_cell[c], " rows in cell ", c,
                " but the group counts ", n))
        return rows;
      if (n == 0)
        continue;
      auto cd = A->get_cell(d.first, c);
      if (!g.ck(cd->nrow >= n && cd->ncol == d.second->ncomp,
                "get_cell shape of ", d.first.name))
        return rows;
      g.ck(cd->nrow == n, "get_cell(", d.first.name, ",", c, ") has ", cd->nrow,
           " rows, expected ", n);
      for (INT l = 0; l < n; l++) {
        auto &v = rows[base + l].r[d.first.name];
        for (int k = 0; k < d.second->ncomp; k++)
          v.push_back(cd->at(l, k));
      }
    }
    for (auto &d : A->particle_dats_int) {
      if (!g.ck(d.second->h_npart_cell[c] == n, "property ", d.first.name,
                " has ", d.second->h_npart_cell[c], " rows in cell ", c,
                " but the group counts ", n))
        return rows;
      if (n == 0)
        continue;
      auto cd = A->get_cell(d.first, c);
      g.ck(cd->nrow == n, "get_cell(", d.first.name, ",", c, ") has ", cd->nrow,
           " rows, expected ", n);
      for (INT l = 0; l < n; l++) {
        auto &v = rows[base + l].i[d.first.name];
        for (int k = 0; k < d.second->ncomp; k++)
          v.push_back(cd->at(l, k));
      }
    }
  }
  g.ck(A->get_npart_local() == total, "get_npart_local() = ",
       A->get_npart_local(), " but the cells hold ", total);
  return rows;
}

template <typename T> inline std::string str(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (std::size_t i = 0; i < v.size(); i++)
    o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}
// Equality as bits, so that NaN equals itself and -0 differs from 0.
template <typename T>
inline bool same(const std::vector<T> &a, const std::vector<T> &b) {
  return a.size() == b.size() &&
         (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}

struct CompareOpts {
  bool cells{true};               // compare the storage cell
  std::set<std::string> ignore{}; // properties not compared
  std::string idname{"ID"};
};

// Compares this rank's content with the particles of the model on this rank.
inline bool compare(Gen &g, const std::vector<Row> &rows, const Model &m,
                    const CompareOpts &o = {}, const std::string &when = "") {
  if (g.failed)
    return false;
  const int me = rank();
  std::size_t expected = 0;
  for (auto &p : m)
    if (p.second.rank == me)
      expected++;
  std::set<INT> seen;
  for (auto &row : rows) {
    auto f = row.i.find(o.idname);
    if (!g.ck(f != row.i.end(), when, " no property ", o.idname))
      return false;
    const INT id = f->second.at(0);
    auto it = m.find(id);
    if (!g.ck(it != m.end(), when, " unknown particle id ", id, " in cell ",
              row.cell, " layer ", row.layer))
      return false;
    if (!g.ck(it->second.rank == me, when, " particle ", id, " is on rank ", me,
              " but belongs to rank ", it->second.rank))
      return false;
    if (!g.ck(seen.insert(id).second, when, " particle ", id,
              " is stored more than once"))
      return false;
    if (o.cells &&
        !g.ck(row.cell == it->second.cell, when, " particle ", id,
              " is stored in cell ", row.cell, ", expected ", it->second.cell))
      return false;
    for (auto &v : it->second.r) {
      if (o.ignore.count(v.first))
        continue;
      auto w = row.r.find(v.first);
      if (!g.ck(w != row.r.end(), when, " property ", v.first, " is missing"))
        return false;
      if (!g.ck(same(w->second, v.second), when, " particle ", id, " property ",
                v.first, " = ", str(w->second), ", expected ", str(v.second)))
        return false;
    }
    for (auto &v : it->second.i) {
      if (o.ignore.count(v.first))
        continue;
      auto w = row.i.find(v.first);
      if (!g.ck(w != row.i.end(), when, " property ", v.first, " is missing"))
        return false;
      if (!g.ck(same(w->second, v.second), when, " particle ", id, " property ",
                v.first, " = ", str(w->second), ", expected ", str(v.second)))
        return false;
    }
    for (auto &w : row.r)
      if (!g.ck(o.ignore.count(w.first) || it->second.r.count(w.first), when,
                " unexpected property ", w.first))
        return false;
    for (auto &w : row.i)
      if (!g.ck(o.ignore.count(w.first) || it->second.i.count(w.first), when,
                " unexpected property ", w.first))
        return false;
  }
  return g.ck(seen.size() == expected, when, " the rank holds ", seen.size(),
              " particles, expected ", expected, [&]() {
                std::ostringstream s;
                int k = 0;
                for (auto &p : m)
                  if (p.second.rank == me && !seen.count(p.first) && k++ < 4)
                    s << " missing id " << p.first << " (cell "
                      << p.second.cell << ")";
                return s.str();
              }());
}

// Values that are a pure function of the particle id.
inline REAL rval(INT id, int dat, int comp, uint64_t salt = 0) {
  uint64_t h = pbt::hash((uint64_t)id, dat, comp, salt);
  return ((double)(h >> 11)) * 0x1p-42 - 1024.0; // exact product: host == device
}
inline INT ival(INT id, int dat, int comp, uint64_t salt = 0) {
  return (INT)(pbt::hash((uint64_t)id, dat + 77, comp, salt) >> 8) -
         (1ll << 54);
}

struct MeshHolder { // frees the mesh (and its communicators) on all exits
  std::shared_ptr<CartesianHMesh> mesh;
  ~MeshHolder() {
    if (mesh)
      mesh->free();
  }
};

// A generated Cartesian mesh with an independent picture of its decomposition
// (the ranges of all ranks; C14 checks that they tile the grid).
struct CartMesh : MeshHolder {
  int ndim{2}, subdiv{0}, stencil{0}, ncell{0};
  std::vector<int> dims;
  double extent{1.0}, h{1.0};
  int n[3] = {1, 1, 1};
  double L[3] = {1, 1, 1};
  std::vector<int> boxes; // 6 per rank: starts, ends

  struct Opts {
    int min_ndim{2}, max_ndim{3}, max_dim2{4}, max_dim3{3}, max_subdiv{2};
    int max_stencil{2};
    bool dyadic{true};
    int min_cells_per_rank_dim{0};
  };
  // Every rank owns at least one cell: some dimension has >= nranks cells.
  void gen(Gen &g, const Opts &o) {
    ndim = (int)g.integer(o.min_ndim, o.max_ndim);
    const int md = ndim == 2 ? o.max_dim2 : o.max_dim3;
    for (int d = 0; d < ndim; d++)
      dims.push_back((int)g.integer(1, md));
    subdiv = (int)g.integer(0, ndim == 3 ? std::min(1, o.max_subdiv) : o.max_subdiv);
    stencil = (int)g.integer(0, o.max_stencil);
    extent = o.dyadic ? g.pick<double>({1.0, 0.5, 2.0, 4.0})
                      : g.pick<double>({1.0, 0.5, 0.3, 1.7, 2.0, 0.1});
    const int need = nranks();
    int best = 0;
    for (int d = 0; d < ndim; d++)
      if (dims[d] > dims[best])
        best = d;
    while ((dims[best] << subdiv) < need)
      dims[best]++;
    build();
  }
  void build() {
    mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, ndim, dims, extent,
                                            subdiv, stencil);
    ncell = mesh->get_cell_count();
    h = extent / (double)(1 << subdiv);
    for (int d = 0; d < ndim; d++) {
      n[d] = dims[d] << subdiv;
      L[d] = extent * dims[d];
    }
    int mine[6];
    for (int d = 0; d < 3; d++) {
      mine[d] = mesh->cell_starts[d];
      mine[3 + d] = mesh->cell_ends[d];
    }
    boxes.assign(6 * nranks(), 0);
    MPI_Allgather(mine, 6, MPI_INT, boxes.data(), 6, MPI_INT, MPI_COMM_WORLD);
  }
  int owner(const int *c) const {
    int own = -1;
    for (int r = 0; r < nranks(); r++) {
      bool in = true;
      for (int d = 0; d < ndim; d++)
        in = in && c[d] >= boxes[6 * r + d] && c[d] < boxes[6 * r + 3 + d];
      if (in)
        own = own < 0 ? r : -2;
    }
    return own;
  }
  int local_cell(int r, const int *c) const {
    int lin = 0;
    for (int d = ndim - 1; d >= 0; d--)
      lin = lin * (boxes[6 * r + 3 + d] - boxes[6 * r + d]) +
            (c[d] - boxes[6 * r + d]);
    return lin;
  }
  std::string str() const {
    std::ostringstream o;
    o << ndim << "D ";
    for (int d = 0; d < ndim; d++)
      o << (d ? "x" : "") << dims[d];
    o << " extent " << extent << " subdiv " << subdiv << " stencil " << stencil
      << " cells here " << ncell;
    return o.str();
  }
};

inline int main(int argc, char **argv, const char *name, pbt::Property p) {
  initialise_mpi(&argc, &argv);
  target();
  int rc;
  {
    pbt::Engine e;
    rc = e.main(argc, argv, name, p);
  }
  fflush(stdout);
  fflush(stderr);
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  _exit(rc);
}

} // namespace np

#define PBT_MAIN(ID, FN)                                                       \
  int main(int argc, char **argv) { return np::main(argc, argv, ID, FN); }
