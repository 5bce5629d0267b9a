// Generated unstructured 2D meshes, their distributed DMPlex, and an
// independent picture of the elements and their owners.
#pragma once
#include "np.hpp"
#include <array>
#include <cmath>
#include <functional>
#include <neso_particles/external_interfaces/petsc/petsc_interface.hpp>

namespace np {

using Pt = std::array<double, 2>;

inline void petsc_start() {
  static bool done = false;
  if (done)
    return;
  PETSCCHK(PetscInitializeNoArguments());
  PETSCCHK(PetscPopSignalHandler());
  done = true;
}

struct PlexMesh {
  std::vector<Pt> v;               // vertices
  std::vector<std::vector<int>> c; // elements, vertex indices in order
  std::vector<int> part;           // rank of each element
  bool exact{false}, mirrored{false};
  int overlap{0}, offset{0};
  double big{1.0}; // magnitude of the coordinates
  std::string kind;
  DM dm{nullptr};
  std::shared_ptr<PetscInterface::DMPlexInterface> mesh;
  // per rank, per local cell: element of c
  std::vector<std::vector<int>> element;
  std::vector<std::array<int, 2>> rim;
  // called with the whole mesh before it is distributed; point nc + i is
  // vertex i on rank 0
  std::function<void(DM)> label_hook;

  struct Opts {
    int max_n{6};
    bool holes{true}, slivers{true}, clockwise{true};
    bool tri_only{false}, quads_affine{false}, all_quads{false};
  };

  void gen(Gen &g, const Opts &o) {
    const int nr = nranks();
    int nx = (int)g.size(1, o.max_n), ny = (int)g.size(1, o.max_n);
    while (nx * ny < nr)
      nx++;
    exact = g.boolean();
    const bool perturb = !o.quads_affine && g.chance(2, 3);
    const uint64_t salt = g.seed32();
    auto H = [&](uint64_t a, uint64_t b = 0) { return pbt::hash(salt, a, b, 5); };
    auto U = [&](uint64_t a, uint64_t b = 0) { return (double)(H(a, b) >> 11) * 0x1p-53; };
    // grid lines, possibly graded
    const int grade = (int)g.draw(3);
    std::vector<double> gx(nx + 1), gy(ny + 1);
    auto lines = [&](std::vector<double> &x, int n, int which) {
      x[0] = 0;
      for (int i = 1; i <= n; i++) {
        double w = 8;
        if (grade == 1)
          w = 8 * (double)(1 + H(900 + which, i) % 4);
        if (grade == 2 && o.slivers && n > 1 && i == n)
          w = exact ? 0x1p-17 : 8e-7;
        x[i] = x[i - 1] + w;
      }
    };
    lines(gx, nx, 0);
    lines(gy, ny, 1);
    std::vector<Pt> w((nx + 1) * (ny + 1));
    for (int j = 0; j <= ny; j++)
      for (int i = 0; i <= nx; i++) {
        Pt p{gx[i], gy[j]};
        if (perturb) {
          // within 0.23 of the narrowest neighbour: elements stay convex
          for (int d = 0; d < 2; d++) {
            double m = 1e9;
            auto &G = d ? gy : gx;
            const int k = d ? j : i, n = d ? ny : nx;
            if (k > 0)
              m = std::min(m, G[k] - G[k - 1]);
            if (k < n)
              m = std::min(m, G[k + 1] - G[k]);
            if (exact)
              p[d] += m * 0.125 * (double)((int)(H(i * 64 + j, d) % 3) - 1);
            else
              p[d] += m * 0.23 * (2.0 * U(i * 64 + j, d) - 1.0);
          }
        }
        w[j * (nx + 1) + i] = p;
      }
    // transform
    const int tk = (int)g.draw(5);
    double a[4] = {1, 0, 0, 1}, b[2] = {0, 0};
    if (exact) {
      const double s = std::ldexp(1.0, (int)g.integer(-6, 3));
      const int sh = (int)g.integer(-2, 2);
      if (tk == 1)
        a[1] = sh;
      if (tk == 2)
        a[2] = sh;
      if (tk == 3)
        a[0] = 0, a[1] = 1, a[2] = -1, a[3] = 0;
      if (tk == 4)
        a[0] = 1, a[1] = 1, a[2] = -1, a[3] = 1;
      for (auto &q : a)
        q *= s;
      b[0] = s * (double)g.integer(-40, 40);
      b[1] = s * (double)g.integer(-40, 40);
    } else {
      const double s = std::exp2(-7.0 + 10.0 * U(700));
      const double th = tk == 0 ? 0.0 : 6.283185307179586 * U(701);
      const double q = tk == 3 ? 0.2 + U(702) : 1.0; // aspect
      a[0] = s * std::cos(th), a[1] = -s * q * std::sin(th);
      a[2] = s * std::sin(th), a[3] = s * q * std::cos(th);
      if (tk >= 2)
        for (int d = 0; d < 2; d++)
          b[d] = s * 60.0 * (U(703, d) - 0.5);
    }
    for (auto &p : w)
      p = {a[0] * p[0] + a[1] * p[1] + b[0], a[2] * p[0] + a[3] * p[1] + b[1]};
    // elements
    int ek = (int)g.draw(3); // quads, triangles, mixed
    if (o.tri_only)
      ek = 1;
    if (o.all_quads)
      ek = 0;
    std::vector<std::vector<int>> e;
    for (int j = 0; j < ny; j++)
      for (int i = 0; i < nx; i++) {
        const int q[4] = {j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i};
        const uint64_t h = H(2000 + i, j);
        if (ek == 0 || (ek == 2 && h % 2)) {
          e.push_back({q[0], q[1], q[2], q[3]});
        } else if ((h >> 8) % 2) {
          e.push_back({q[0], q[1], q[2]});
          e.push_back({q[0], q[2], q[3]});
        } else {
          e.push_back({q[0], q[1], q[3]});
          e.push_back({q[1], q[2], q[3]});
        }
      }
    // holes and ragged outlines
    const bool holes = o.holes && grade != 2 && g.chance(1, 3);
    if (holes) {
      std::vector<std::vector<int>> k;
      for (std::size_t i = 0; i < e.size(); i++)
        if (H(3000, i) % 4 != 0 || (int)(k.size() + e.size() - i) <= std::max(nr, 1))
          k.push_back(e[i]);
      e = k;
    }
    // element and vertex numbering, first vertex, orientation
    const bool shuffle = g.boolean();
    mirrored = o.clockwise && g.chance(1, 4);
    std::vector<std::pair<uint64_t, int>> ord;
    for (std::size_t i = 0; i < e.size(); i++)
      ord.push_back({shuffle ? H(4000, i) : i, (int)i});
    std::sort(ord.begin(), ord.end());
    std::vector<int> vmap(w.size(), -1);
    std::vector<std::pair<uint64_t, int>> vo;
    std::set<int> used;
    for (auto &x : e)
      used.insert(x.begin(), x.end());
    for (int i : used)
      vo.push_back({shuffle ? H(5000, i) : i, i});
    std::sort(vo.begin(), vo.end());
    for (auto &x : vo) {
      vmap[x.second] = (int)v.size();
      v.push_back(w[x.second]);
    }
    for (auto &x : ord) {
      auto q = e[x.second];
      for (auto &k : q)
        k = vmap[k];
      if (shuffle)
        std::rotate(q.begin(), q.begin() + H(6000, x.second) % q.size(), q.end());
      if (mirrored)
        std::reverse(q.begin(), q.end());
      c.push_back(q);
    }
    for (auto &p : v)
      big = std::max({&p == &v[0] ? 0.0 : big, std::fabs(p[0]), std::fabs(p[1])});
    // partition: every rank owns an element
    const int pk = (int)g.draw(3); // scattered, strips of the grid, uneven
    const int nc = (int)c.size();
    part.resize(nc);
    for (int i = 0; i < nc; i++) {
      const int grid = ord[i].second;
      if (pk == 0)
        part[i] = (int)(H(7000, i) % nr);
      else if (pk == 1)
        part[i] = (int)((int64_t)grid * nr / nc);
      else
        part[i] = H(7001, i) % 4 ? 0 : (int)(H(7000, i) % nr);
    }
    for (int r = 0; r < nr; r++) { // fill the empty ranks
      std::vector<int> cnt(nr, 0);
      for (int x : part)
        cnt[x]++;
      if (cnt[r] == 0)
        for (int i = 0; i < nc; i++)
          if (cnt[part[i]] > 1) {
            part[i] = r;
            break;
          }
    }
    overlap = nr > 1 ? (int)g.draw(2) : 0;
    offset = (int)g.integer(-1, 2);
    std::ostringstream s;
    s << nx << "x" << ny << (ek == 0 ? " quads" : ek == 1 ? " triangles" : " mixed") << (exact ? " exact" : "") << (perturb ? " perturbed" : "") << " grade " << grade << " transform " << tk
      << (holes ? " holes" : "") << (mirrored ? " clockwise" : "") << " partition " << pk << " overlap " << overlap << " offset " << offset << " elements " << nc << " vertices " << v.size();
    kind = s.str();
    g.note("mesh ", kind);
    g.label(ek == 0 ? "quads" : ek == 1 ? "triangles" : "mixed");
    if (holes)
      g.label("holes");
  }

  void build_dm() {
    petsc_start();
    const bool root = rank() == 0;
    const PetscInt nc = root ? (PetscInt)c.size() : 0;
    const PetscInt nv = root ? (PetscInt)v.size() : 0;
    DM d0;
    PETSCCHK(DMCreate(MPI_COMM_WORLD, &d0));
    PETSCCHK(DMSetType(d0, DMPLEX));
    PETSCCHK(DMSetDimension(d0, 2));
    PETSCCHK(DMPlexSetChart(d0, 0, nc + nv));
    for (PetscInt i = 0; i < nc; i++)
      PETSCCHK(DMPlexSetConeSize(d0, i, (PetscInt)c[i].size()));
    PETSCCHK(DMSetUp(d0));
    for (PetscInt i = 0; i < nc; i++) {
      std::vector<PetscInt> q;
      for (int k : c[i])
        q.push_back(nc + k);
      PETSCCHK(DMPlexSetCone(d0, i, q.data()));
    }
    PETSCCHK(DMPlexSymmetrize(d0));
    PETSCCHK(DMPlexStratify(d0));
    PETSCCHK(DMSetCoordinateDim(d0, 2));
    PetscInterface::setup_coordinate_section(d0, nc, nc + nv);
    Vec x;
    PetscScalar *p;
    PetscInterface::setup_local_coordinate_vector(d0, x);
    PETSCCHK(VecGetArray(x, &p));
    for (PetscInt i = 0; i < nv; i++)
      p[2 * i] = v[i][0], p[2 * i + 1] = v[i][1];
    PETSCCHK(VecRestoreArray(x, &p));
    PETSCCHK(DMSetCoordinatesLocal(d0, x));
    PETSCCHK(VecDestroy(&x));
    PETSCCHK(DMPlexInterpolate(d0, &dm));
    PETSCCHK(DMDestroy(&d0));
    if (label_hook)
      label_hook(dm);
    if (nranks() > 1) {
      PetscPartitioner pt;
      PETSCCHK(DMPlexGetPartitioner(dm, &pt));
      PETSCCHK(PetscPartitionerSetType(pt, PETSCPARTITIONERSHELL));
      std::vector<PetscInt> sizes(nranks(), 0), points;
      if (root)
        for (int r = 0; r < nranks(); r++)
          for (PetscInt i = 0; i < nc; i++)
            if (part[i] == r)
              sizes[r]++, points.push_back(i);
      points.push_back(0);
      PETSCCHK(PetscPartitionerShellSetPartition(pt, nranks(), sizes.data(), points.data()));
      PetscInterface::generic_distribute(&dm, MPI_COMM_WORLD, overlap);
    }
  }

  static std::vector<Pt> sorted(std::vector<Pt> q) {
    std::sort(q.begin(), q.end());
    return q;
  }
  std::vector<Pt> poly(int e) const {
    std::vector<Pt> q;
    for (int k : c[e])
      q.push_back(v[k]);
    return q;
  }
  double area(int e) const {
    auto q = poly(e);
    long double s = 0;
    for (std::size_t i = 0; i < q.size(); i++) {
      auto &a = q[i], &b = q[(i + 1) % q.size()];
      s += ((long double)a[0] - q[0][0]) * ((long double)b[1] - q[0][1]) - ((long double)b[0] - q[0][0]) * ((long double)a[1] - q[0][1]);
    }
    return (double)std::fabs(0.5L * s);
  }
  // Distance of p inside element e (negative: outside).
  double depth(int e, const Pt &p) const {
    auto q = poly(e);
    const double sgn = mirrored ? -1.0 : 1.0;
    long double m = 1e300L;
    for (std::size_t i = 0; i < q.size(); i++) {
      auto &a = q[i], &b = q[(i + 1) % q.size()];
      const long double dx = (long double)b[0] - a[0], dy = (long double)b[1] - a[1];
      const long double cr = dx * ((long double)p[1] - a[1]) - dy * ((long double)p[0] - a[0]);
      m = std::min(m, sgn * cr / std::sqrt(dx * dx + dy * dy));
    }
    return (double)m;
  }
  // Distance of p to the outline of the mesh (edges of one element only).
  double outline(const Pt &p) {
    if (rim.empty()) {
      std::map<std::pair<int, int>, int> cnt;
      for (auto &q : c)
        for (std::size_t i = 0; i < q.size(); i++) {
          const int a = q[i], b = q[(i + 1) % q.size()];
          cnt[{std::min(a, b), std::max(a, b)}]++;
        }
      for (auto &x : cnt)
        if (x.second == 1)
          rim.push_back({x.first.first, x.first.second});
    }
    long double m = 1e300L;
    for (auto &x : rim) {
      auto &a = v[x[0]], &b = v[x[1]];
      const long double dx = (long double)b[0] - a[0], dy = (long double)b[1] - a[1];
      const long double px = (long double)p[0] - a[0], py = (long double)p[1] - a[1];
      const long double t = std::min(1.0L, std::max(0.0L, (px * dx + py * dy) / (dx * dx + dy * dy)));
      m = std::min(m, std::hypot(px - t * dx, py - t * dy));
    }
    return (double)m;
  }
  double tol() const { return 64 * 2.220446049250313e-16 * big; }

  // The element of each local cell, found by its vertices, on all ranks.
  bool identify(Gen &g) {
    std::map<std::vector<Pt>, int> by;
    for (int e = 0; e < (int)c.size(); e++)
      by[sorted(poly(e))] = e;
    std::vector<int> mine;
    const int n = mesh->get_cell_count();
    for (int k = 0; k < n; k++) {
      std::vector<std::vector<REAL>> vv;
      mesh->dmh->get_cell_vertices(k, vv);
      std::vector<Pt> q;
      for (auto &x : vv)
        q.push_back({x.at(0), x.at(1)});
      auto it = by.find(sorted(q));
      g.ck(it != by.end(), "the vertices of cell ", k, " are not those of an element");
      mine.push_back(it == by.end() ? -1 : it->second);
    }
    int cnt = n;
    std::vector<int> cs(nranks()), ds(nranks());
    MPI_Allgather(&cnt, 1, MPI_INT, cs.data(), 1, MPI_INT, MPI_COMM_WORLD);
    int tot = 0;
    for (int r = 0; r < nranks(); r++)
      ds[r] = tot, tot += cs[r];
    std::vector<int> all(tot + 1);
    MPI_Allgatherv(mine.data(), cnt, MPI_INT, all.data(), cs.data(), ds.data(), MPI_INT, MPI_COMM_WORLD);
    element.assign(nranks(), {});
    std::vector<int> owners(c.size(), 0);
    for (int r = 0; r < nranks(); r++)
      for (int k = 0; k < cs[r]; k++) {
        const int e = all[ds[r] + k];
        element[r].push_back(e);
        if (e >= 0) {
          owners[e]++;
          g.ck(part[e] == r, "element ", e, " is owned by rank ", r, ", the partition gave it to rank ", part[e]);
        }
      }
    for (std::size_t e = 0; e < c.size(); e++)
      g.ck(owners[e] == 1, "element ", e, " is a cell of ", owners[e], " ranks");
    return !g.failed;
  }

  void make(Gen &g, const Opts &o) {
    gen(g, o);
    build_dm();
    mesh = std::make_shared<PetscInterface::DMPlexInterface>(dm, offset, MPI_COMM_WORLD);
  }

  ~PlexMesh() {
    if (mesh) {
      if (mesh->dmh_halo) {
        DM h = mesh->dmh_halo->dm;
        mesh->free();
        DMDestroy(&h);
      } else
        mesh->free();
    }
    if (dm)
      DMDestroy(&dm);
  }
};

// A point inside, near or on edges and vertices of an element.
inline Pt plex_raw(const PlexMesh &m, uint64_t h0, bool edges) {
  int ctr = 0;
  auto H = [&]() { return pbt::hash(h0, 17 + ctr++); };
  auto U = [&]() { return (double)(H() >> 11) * 0x1p-53; };
  const int e = (int)(H() % m.c.size());
  auto q = m.poly(e);
  const int n = (int)q.size();
  const int k = (int)(H() % (edges ? 8 : 4));
  Pt p{0, 0};
  if (k == 4)
    return q[H() % n]; // vertex
  if (k == 5 || k == 6) { // on an edge
    const int i = (int)(H() % n);
    auto &a = q[i], &b = q[(i + 1) % n];
    const double t = m.exact ? (double)(1 + H() % 7) * 0.125 : U();
    for (int d = 0; d < 2; d++)
      p[d] = m.exact ? a[d] + t * (b[d] - a[d]) : (1 - t) * a[d] + t * b[d];
    return p;
  }
  double w[4], s = 0;
  for (int i = 0; i < n; i++) {
    w[i] = -std::log(1e-12 + U());
    if (k == 3 && i != (int)(h0 % n)) // close to a vertex
      w[i] *= 1e-9;
    if (k == 2 && i == (int)(h0 % n)) // close to the opposite edge
      w[i] *= 1e-9;
    s += w[i];
  }
  for (int i = 0; i < n; i++)
    for (int d = 0; d < 2; d++)
      p[d] += w[i] / s * q[i][d];
  if (k == 7) { // aligned with a vertex of another element
    const int f = (int)(H() % m.c.size());
    auto r = m.poly(f)[H() % m.c[f].size()];
    Pt t = p;
    const int d = (int)(H() % 2);
    t[d] = r[d];
    if (m.depth(e, t) > 0)
      return t;
  }
  return p;
}

// A point of the domain. Points on the outline only if their coordinates are
// exact and outline is set.
inline Pt plex_point(PlexMesh &m, uint64_t h0, bool edges = true, bool outline = false) {
  for (int k = 0;; k++) {
    const Pt p = plex_raw(m, pbt::hash(h0, k), edges && k < 8);
    const double d = m.outline(p);
    if (d > m.tol() || (d == 0.0 && m.exact && outline) || k > 60)
      return p;
  }
}

} // namespace np
