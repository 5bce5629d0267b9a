// C22: unstructured meshes map every particle to the cell and rank containing it.
#include "mpifix.hpp"
#include "plexmesh.hpp"
using namespace np;
using namespace PetscInterface;

namespace {

void geometry(Gen &g, PlexMesh &m) {
  const int me = rank();
  auto &dmh = m.mesh->dmh;
  const int n = m.mesh->get_cell_count();
  g.ck(m.mesh->get_ndim() == 2, "dimension ", m.mesh->get_ndim());
  g.ck(dmh->get_global_cell_count() == (int)m.c.size(), "global cell count ", dmh->get_global_cell_count(), ", expected ", m.c.size());
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}, vol = 0;
  const uint64_t salt = g.seed32();
  for (std::size_t e = 0; e < m.c.size(); e++)
    vol += m.area((int)e);
  std::vector<std::vector<REAL>> probe;
  for (int k = 0; k < n && !g.failed; k++) {
    const int e = m.element[me][k];
    const auto q = m.poly(e);
    double a[2] = {1e300, 1e300}, b[2] = {-1e300, -1e300};
    for (auto &p : q)
      for (int d = 0; d < 2; d++)
        a[d] = std::min(a[d], p[d]), b[d] = std::max(b[d], p[d]);
    auto bb = dmh->get_cell_bounding_box(k);
    for (int d = 0; d < 2; d++) {
      g.ck(bb->lower(d) == a[d] && bb->upper(d) == b[d], "bounding box of cell ", k, " dimension ", d, ": [", bb->lower(d), ",", bb->upper(d), "], expected [", a[d], ",", b[d], "]");
      lo[d] = std::min(lo[d], a[d]), hi[d] = std::max(hi[d], b[d]);
    }
    const double A = m.area(e), v = dmh->get_cell_volume(k);
    const double ext = std::max(b[0] - a[0], b[1] - a[1]);
    g.ck(std::fabs(v - A) <= 64 * 2.3e-16 * m.big * ext + 1e-13 * A, "volume of cell ", k, " is ", v, ", expected ", A);
    std::vector<REAL> av(2);
    dmh->get_cell_vertex_average(k, av);
    for (int d = 0; d < 2; d++) {
      double s = 0;
      for (auto &p : q)
        s += p[d];
      g.ck(std::fabs(av[d] - s / (double)q.size()) <= m.tol(), "vertex average of cell ", k);
    }
    for (int i = 0; i < 6; i++) {
      const Pt p = plex_point(m, pbt::hash(salt, k, i));
      // mostly near this cell
      Pt t = p;
      if (i < 4) {
        const double u = (double)(pbt::hash(salt, k, i, 3) >> 11) * 0x1p-53 * 1.6 - 0.3;
        const double w = (double)(pbt::hash(salt, k, i, 4) >> 11) * 0x1p-53 * 1.6 - 0.3;
        t = {a[0] + u * (b[0] - a[0]), a[1] + w * (b[1] - a[1])};
        if (i == 2)
          t = q[pbt::hash(salt, k, i, 5) % q.size()];
      }
      const double dep = m.depth(e, t);
      std::vector<PetscScalar> ps{t[0], t[1]};
      const bool in = dmh->cell_contains_point(k, ps);
      if (std::fabs(dep) > m.tol())
        g.ck(in == (dep > 0), "cell_contains_point(", k, ") is ", in, " for (", t[0], ",", t[1], ") at depth ", dep);
      if (in)
        g.label("inside");
    }
  }
  auto tb = dmh->get_bounding_box();
  // grows by the halo when a mapper is made; before it is the local box
  for (int d = 0; d < 2; d++)
    g.ck(tb->lower(d) == lo[d] && tb->upper(d) == hi[d], "bounding box of the rank");
  const double V = dmh->get_volume();
  g.ck(std::fabs(V - vol) <= 1e-12 * vol + 256 * 2.3e-16 * m.big * m.big, "volume ", V, ", expected ", vol);
  double pt[3];
  m.mesh->get_point_in_subdomain(pt);
  bool inside = false;
  for (int e : m.element[me])
    inside = inside || m.depth(e, {pt[0], pt[1]}) > -m.tol();
  g.ck(inside, "get_point_in_subdomain gives a point outside of the subdomain");
  // global numbering
  PetscInt s, e2;
  DMPlexGetChart(dmh->dm, &s, &e2);
  for (PetscInt p = s; p < e2; p++) {
    const PetscInt gi = dmh->get_point_global_index(p);
    const PetscInt sg = dmh->get_point_global_index(p, true);
    g.ck(gi >= 0 && (sg == gi || sg == -gi - 1), "global index of point ", p, ": ", gi, " signed ", sg);
    g.ck(dmh->get_local_point_from_global_point(gi) == p, "local point of global point ", gi, " is ", dmh->get_local_point_from_global_point(gi), ", expected ", p);
  }
  for (int k = 0; k < n; k++)
    g.ck(dmh->get_local_cell_index(dmh->get_dmplex_cell_index(k)) == k, "cell indices do not round trip for cell ", k);
}

// Halo cells are copies of the remote cells they name.
void halos(Gen &g, PlexMesh &m) {
  g.ck(m.mesh->validate_halos(false), "validate_halos reports a mismatch");
  auto &h = m.mesh->dmh_halo;
  if (!h)
    return;
  g.label("halo");
  std::set<int> seen;
  const int n = h->get_cell_count();
  for (int k = 0; k < n && !g.failed; k++) {
    const PetscInt p = h->get_dmplex_cell_index(k);
    auto it = m.mesh->map_local_lid_remote_lid.find(p);
    if (!g.ck(it != m.mesh->map_local_lid_remote_lid.end(), "halo cell ", k, " has no remote cell"))
      return;
    const int r = std::get<0>(it->second);
    const PetscInt l = std::get<1>(it->second);
    if (!g.ck(r >= 0 && r < nranks() && r != rank() && l >= 0 && l < (PetscInt)m.element[r].size(), "halo cell ", k, " names cell ", l, " of rank ", r))
      return;
    const int e = m.element[r][l];
    g.ck(seen.insert(e).second, "element ", e, " appears twice in the halo");
    std::vector<std::vector<REAL>> vv;
    h->get_cell_vertices(k, vv);
    std::vector<Pt> q;
    for (auto &x : vv)
      q.push_back({x.at(0), x.at(1)});
    g.ck(PlexMesh::sorted(q) == PlexMesh::sorted(m.poly(e)), "halo cell ", k, " does not have the vertices of cell ", l, " of rank ", r);
    auto &nb = m.mesh->get_local_communication_neighbours();
    g.ck(std::find(nb.begin(), nb.end(), r) != nb.end(), "rank ", r, " owns halo cells but is not a neighbour");
  }
}

// ---- three dimensions: cells are found by the host mapper ----
using P3 = std::array<double, 3>;
struct Mesh3 {
  std::vector<P3> v;
  std::vector<std::vector<int>> c;
  std::vector<int> part;
  bool tets{false};
  double big{1.0};
  DM dm{nullptr};
  std::shared_ptr<DMPlexInterface> mesh;
  std::vector<int> mine; // element of each local cell
  int overlap{0};

  P3 centre(int e) const {
    P3 p{0, 0, 0};
    for (int k : c[e])
      for (int d = 0; d < 3; d++)
        p[d] += v[k][d] / (double)c[e].size();
    return p;
  }
  // outward distance over the faces, relative to the centre: all elements are convex with planar faces
  double depth(int e, const P3 &p) const {
    static const std::vector<std::vector<int>> FT{{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}};
    static const std::vector<std::vector<int>> FH{{0, 1, 2}, {4, 5, 6}, {0, 1, 5}, {1, 2, 6}, {2, 3, 7}, {3, 0, 4}};
    const P3 m = centre(e);
    double r = 1e300;
    for (auto &f : (tets ? FT : FH)) {
      const P3 &a = v[c[e][f[0]]], &b = v[c[e][f[1]]], &q = v[c[e][f[2]]];
      double u[3], w[3], n[3];
      for (int d = 0; d < 3; d++)
        u[d] = b[d] - a[d], w[d] = q[d] - a[d];
      for (int d = 0; d < 3; d++)
        n[d] = u[(d + 1) % 3] * w[(d + 2) % 3] - u[(d + 2) % 3] * w[(d + 1) % 3];
      const double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
      double sp = 0, sm = 0;
      for (int d = 0; d < 3; d++)
        sp += (p[d] - a[d]) * n[d] / l, sm += (m[d] - a[d]) * n[d] / l;
      r = std::min(r, sm > 0 ? sp : -sp);
    }
    return r;
  }
  ~Mesh3() {
    if (mesh) {
      if (mesh->dmh_halo) {
        DM h = mesh->dmh_halo->dm;
        mesh->free();
        DMDestroy(&h);
      } else
        mesh->free();
    }
    if (dm)
      DMDestroy(&dm);
  }
};

void prop3(Gen &g) {
  g.label("3d");
  petsc_start();
  Mesh3 m;
  const int nr = nranks();
  int n[3];
  for (int d = 0; d < 3; d++)
    n[d] = (int)g.size(1, 3);
  m.tets = g.boolean();
  while (n[0] * n[1] * n[2] < nr)
    n[0]++;
  const uint64_t salt = g.seed32();
  auto U = [&](uint64_t a, uint64_t b = 0) { return (double)(pbt::hash(salt, a, b, 9) >> 11) * 0x1p-53; };
  const double scale = std::exp2((double)g.integer(-3, 3));
  const bool shear = g.boolean(), move = g.boolean(), graded = g.boolean();
  std::vector<double> L[3];
  for (int d = 0; d < 3; d++) {
    L[d].push_back(0.0);
    for (int i = 0; i < n[d]; i++)
      L[d].push_back(L[d].back() + (graded ? 0.5 + U(10 + d, i) : 1.0));
  }
  const double sh[3] = {shear ? 0.5 * (U(1) - 0.5) : 0, shear ? 0.5 * (U(2) - 0.5) : 0, shear ? 0.5 * (U(3) - 0.5) : 0};
  double off[3];
  for (int d = 0; d < 3; d++)
    off[d] = move ? 10.0 * (U(4, d) - 0.5) : 0.0;
  auto id = [&](int i, int j, int k) { return i + (n[0] + 1) * (j + (n[1] + 1) * k); };
  for (int k = 0; k <= n[2]; k++)
    for (int j = 0; j <= n[1]; j++)
      for (int i = 0; i <= n[0]; i++) {
        double x = L[0][i], y = L[1][j], z = L[2][k];
        P3 p{x + sh[0] * y + sh[1] * z, y + sh[2] * z, z};
        for (int d = 0; d < 3; d++) {
          p[d] = scale * (p[d] + off[d]);
          m.big = std::max(m.big, std::fabs(p[d]));
        }
        m.v.push_back(p);
      }
  for (int k = 0; k < n[2]; k++)
    for (int j = 0; j < n[1]; j++)
      for (int i = 0; i < n[0]; i++) {
        if (!m.tets) {
          m.c.push_back({id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)});
          continue;
        }
        int a[3] = {0, 1, 2};
        do { // the six tetrahedra of a cube along its main diagonal
          int q[3] = {i, j, k};
          std::vector<int> t{id(q[0], q[1], q[2])};
          for (int s = 0; s < 3; s++) {
            q[a[s]]++;
            t.push_back(id(q[0], q[1], q[2]));
          }
          // positive orientation
          double e[3][3];
          for (int s = 0; s < 3; s++)
            for (int d = 0; d < 3; d++)
              e[s][d] = m.v[t[s + 1]][d] - m.v[t[0]][d];
          const double det = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
          if (det < 0)
            std::swap(t[1], t[2]);
          m.c.push_back(t);
        } while (std::next_permutation(a, a + 3));
      }
  const int nc = (int)m.c.size();
  const int pk = (int)g.draw(3);
  for (int e = 0; e < nc; e++)
    m.part.push_back(pk == 0 ? (int)(pbt::hash(salt, e, 50) % nr) : pk == 1 ? (int)((int64_t)e * nr / nc) : (pbt::hash(salt, e, 51) % 4 ? 0 : (int)(pbt::hash(salt, e, 50) % nr)));
  for (int r = 0; r < nr; r++)
    if (std::count(m.part.begin(), m.part.end(), r) == 0)
      for (int e = 0; e < nc; e++)
        if (std::count(m.part.begin(), m.part.end(), m.part[e]) > 1) {
          m.part[e] = r;
          break;
        }
  g.note("3D mesh ", n[0], "x", n[1], "x", n[2], m.tets ? " tetrahedra" : " hexahedra", " partition ", pk);
  // the mesh
  const bool root = rank() == 0;
  std::vector<PetscInt> cells;
  std::vector<PetscReal> coords;
  if (root) {
    for (auto &q : m.c) {
      auto t = q; // PETSc's vertex orders
      if (m.tets)
        std::swap(t[0], t[1]);
      else
        std::swap(t[1], t[3]);
      for (int k : t)
        cells.push_back(k);
    }
    for (auto &p : m.v)
      coords.insert(coords.end(), p.begin(), p.end());
  }
  cells.push_back(0), coords.push_back(0);
  PETSCCHK(DMPlexCreateFromCellListPetsc(MPI_COMM_WORLD, 3, root ? nc : 0, root ? (PetscInt)m.v.size() : 0, m.tets ? 4 : 8, PETSC_TRUE, cells.data(), 3, coords.data(), &m.dm));
  if (nr > 1) {
    m.overlap = (int)g.draw(2);
    PetscPartitioner pt;
    PETSCCHK(DMPlexGetPartitioner(m.dm, &pt));
    PETSCCHK(PetscPartitionerSetType(pt, PETSCPARTITIONERSHELL));
    std::vector<PetscInt> sizes(nr, 0), points;
    if (root)
      for (int r = 0; r < nr; r++)
        for (PetscInt i = 0; i < nc; i++)
          if (m.part[i] == r)
            sizes[r]++, points.push_back(i);
    points.push_back(0);
    PETSCCHK(PetscPartitionerShellSetPartition(pt, nr, sizes.data(), points.data()));
    generic_distribute(&m.dm, MPI_COMM_WORLD, m.overlap);
  }
  m.mesh = std::make_shared<DMPlexInterface>(m.dm, (int)g.integer(-1, 1), MPI_COMM_WORLD);
  const double tol = 1e-12 * m.big;
  const int ncell = m.mesh->get_cell_count();
  g.ck(m.mesh->get_ndim() == 3 && m.mesh->dmh->get_global_cell_count() == nc, "3D mesh: dimension or number of cells");
  std::vector<int> mine(nc, 0), all(nc, 0);
  for (int k = 0; k < ncell; k++) {
    std::vector<REAL> av(3);
    m.mesh->dmh->get_cell_vertex_average(k, av);
    int e = -1;
    for (int i = 0; i < nc; i++) {
      const P3 q = m.centre(i);
      if (std::fabs(q[0] - av[0]) + std::fabs(q[1] - av[1]) + std::fabs(q[2] - av[2]) < 1e-9 * m.big)
        e = i;
    }
    if (g.ck(e >= 0, "3D cell ", k, " is not an element")) {
      g.ck(m.part[e] == rank(), "3D element ", e, " is on rank ", rank(), ", the partition gave it to ", m.part[e]);
      mine[e]++;
      P3 lo = m.v[m.c[e][0]], hi = lo;
      for (int q : m.c[e])
        for (int d = 0; d < 3; d++)
          lo[d] = std::min(lo[d], m.v[q][d]), hi[d] = std::max(hi[d], m.v[q][d]);
      auto bb = m.mesh->dmh->get_cell_bounding_box(k);
      for (int d = 0; d < 3; d++)
        g.ck(bb->lower(d) == lo[d] && bb->upper(d) == hi[d], "3D bounding box of cell ", k);
    }
    m.mine.push_back(e);
  }
  MPI_Allreduce(mine.data(), all.data(), nc, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  for (int e = 0; e < nc; e++)
    g.ck(all[e] == 1, "3D element ", e, " is a cell of ", all[e], " ranks");
  g.sync();
  if (g.failed)
    return;
  auto mapper = std::make_shared<DMPlexLocalMapper>(target(), m.mesh);
  auto domain = std::make_shared<Domain>(m.mesh, mapper);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 3, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1)};
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  const int npart = (int)g.size(0, 40);
  const int steps = (int)g.size(1, 3);
  // a point inside an element, at a distance from its faces
  auto pos = [&](int i, int s) {
    if (s > 0 && pbt::hash(salt, i, s, 61) % 4 == 0)
      s--;
    const int e = (int)(pbt::hash(salt, i, s, 62) % nc);
    P3 p{0, 0, 0};
    double w[8], t = 0;
    for (std::size_t k = 0; k < m.c[e].size(); k++)
      t += w[k] = 0.02 - std::log(1e-9 + U(1000 + i * 64 + s, k));
    for (std::size_t k = 0; k < m.c[e].size(); k++)
      for (int d = 0; d < 3; d++)
        p[d] += w[k] / t * m.v[m.c[e][k]][d];
    return p;
  };
  std::vector<INT> ids;
  for (int i = 0; i < npart; i++)
    if ((int)(pbt::hash(salt, i, 63) % nr) == rank())
      ids.push_back(i);
  ParticleSet init((int)ids.size(), spec);
  for (std::size_t i = 0; i < ids.size(); i++) {
    const P3 p = pos((int)ids[i], 0);
    for (int d = 0; d < 3; d++)
      init[Sym<REAL>("P")][i][d] = p[d];
    init[Sym<INT>("CELL_ID")][i][0] = (INT)(pbt::hash(salt, ids[i], 64) % ncell);
    init[Sym<INT>("ID")][i][0] = ids[i];
  }
  A->add_particles_local(init);
  for (int s = 0; s <= steps && !g.failed; s++) {
    std::vector<REAL> tab(3 * npart + 3, 0.0);
    for (int i = 0; i < npart; i++) {
      const P3 p = pos(i, s);
      for (int d = 0; d < 3; d++)
        tab[3 * i + d] = p[d];
    }
    if (s) {
      BufferDevice<REAL> bt(target(), tab);
      auto pt = bt.ptr;
      particle_loop(
          A,
          [=](auto P, auto ID) {
            for (int d = 0; d < 3; d++)
              P.at(d) = pt[3 * ID.at(0) + d];
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
          ->execute();
    }
    A->hybrid_move();
    A->cell_move();
    auto rows = snapshot(g, A);
    std::vector<int> have(npart + 1, 0), tot(npart + 1, 0);
    for (auto &r : rows) {
      const INT i = r.i["ID"][0];
      if (!g.ck(i >= 0 && i < npart, "3D unknown particle ", i))
        break;
      have[i]++;
      const P3 p{tab[3 * i], tab[3 * i + 1], tab[3 * i + 2]};
      g.ck(same(r.r["P"], std::vector<REAL>{p[0], p[1], p[2]}), "3D step ", s, " particle ", i, " position changed");
      g.ck(r.i["CELL_ID"][0] == r.cell, "3D step ", s, " particle ", i, " stored in cell ", r.cell, " with cell id ", r.i["CELL_ID"][0]);
      const double dep = m.depth(m.mine[r.cell], p);
      g.ck(dep >= -tol, "3D step ", s, " particle ", i, " is in cell ", r.cell, " (element ", m.mine[r.cell], ") but ", -dep, " outside of it");
    }
    MPI_Allreduce(have.data(), tot.data(), npart, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    for (int i = 0; i < npart; i++)
      g.ck(tot[i] == 1, "3D step ", s, " particle ", i, " exists ", tot[i], " times");
    g.sync();
  }
  g.mark(npart >= 2 && nc >= 2);
  A->free();
  g.sync();
}

void prop(Gen &g) {
  if (g.draw(6) == 5) {
    prop3(g);
    return;
  }
  PlexMesh m;
  m.make(g, {});
  if (!m.identify(g)) {
    g.sync();
    return;
  }
  geometry(g, m);
  halos(g, m);
  g.sync();
  if (g.failed)
    return;
  auto mapper = std::make_shared<DMPlexLocalMapper>(target(), m.mesh);
  auto domain = std::make_shared<Domain>(m.mesh, mapper);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<REAL>("W"), 3)};
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  const int npart = (int)g.size(0, 60);
  const uint64_t salt = g.seed32();
  const int steps = (int)g.size(1, 4);
  const bool edges = g.boolean(), outline = edges && g.boolean();
  auto pos = [&](int id, int step) {
    // some stay, some move a little
    const uint64_t h = pbt::hash(salt, id, step, 1);
    if (step > 0 && h % 4 == 0)
      step--;
    return plex_point(m, pbt::hash(salt, id, step), edges, outline);
  };
  // initially anywhere
  std::vector<INT> mine;
  for (int id = 0; id < npart; id++)
    if ((int)(pbt::hash(salt, id, 777) % nranks()) == rank())
      mine.push_back(id);
  ParticleSet init((int)mine.size(), spec);
  for (std::size_t i = 0; i < mine.size(); i++) {
    const Pt p = pos((int)mine[i], 0);
    for (int d = 0; d < 2; d++)
      init[Sym<REAL>("P")][i][d] = p[d];
    init[Sym<INT>("CELL_ID")][i][0] = (INT)(pbt::hash(salt, mine[i], 778) % m.mesh->get_cell_count());
    init[Sym<INT>("ID")][i][0] = mine[i];
    for (int k = 0; k < 3; k++)
      init[Sym<REAL>("W")][i][k] = rval(mine[i], 3, k);
  }
  A->add_particles_local(init);
  int moved = 0;
  for (int s = 0; s <= steps && !g.failed; s++) {
    std::vector<REAL> tab(2 * npart + 2, 0.0);
    for (int id = 0; id < npart; id++) {
      const Pt p = pos(id, s);
      tab[2 * id] = p[0], tab[2 * id + 1] = p[1];
    }
    if (s) {
      BufferDevice<REAL> bt(target(), tab);
      auto pt = bt.ptr;
      particle_loop(
          A,
          [=](auto P, auto ID) {
            P.at(0) = pt[2 * ID.at(0)];
            P.at(1) = pt[2 * ID.at(0) + 1];
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
          ->execute();
    }
    A->hybrid_move();
    A->cell_move();
    auto rows = snapshot(g, A);
    std::vector<int> have(npart + 1, 0), all(npart + 1, 0);
    for (auto &r : rows) {
      const INT id = r.i["ID"][0];
      if (!g.ck(id >= 0 && id < npart, "unknown particle ", id))
        break;
      have[id]++;
      g.ck(same(r.r["P"], std::vector<REAL>{tab[2 * id], tab[2 * id + 1]}), "step ", s, " particle ", id, " position changed to ", str(r.r["P"]));
      g.ck(same(r.r["W"], std::vector<REAL>{rval(id, 3, 0), rval(id, 3, 1), rval(id, 3, 2)}), "step ", s, " particle ", id, " payload changed");
      g.ck(r.i["CELL_ID"][0] == r.cell, "step ", s, " particle ", id, " stored in cell ", r.cell, " with cell id ", r.i["CELL_ID"][0]);
      const int e = m.element[rank()][r.cell];
      const double dep = m.depth(e, {tab[2 * id], tab[2 * id + 1]});
      g.ck(dep >= -m.tol(), "step ", s, " particle ", id, " at (", tab[2 * id], ",", tab[2 * id + 1], ") is in cell ", r.cell, " (element ", e, ") but ", -dep, " outside of it");
    }
    MPI_Allreduce(have.data(), all.data(), npart, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    for (int id = 0; id < npart; id++)
      g.ck(all[id] == 1, "step ", s, " particle ", id, " exists ", all[id], " times");
    moved += (int)rows.size();
    g.sync();
  }
  g.mark(npart >= 2 && m.c.size() >= 2);
  A->free();
  g.sync();
}

} // namespace

PBT_MAIN("C22", prop)
