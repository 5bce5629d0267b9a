// C14: the Cartesian mesh decomposition tiles the grid, its indices and face
// cells agree with the global grid on all ranks, and points map to their cell.
#include "nodes.hpp"
#include "np.hpp"
using namespace np;

namespace {

struct W {
  Gen &g;
  CartMesh m;
  MPI_Comm parent{MPI_COMM_NULL};
  std::vector<int> want_dims;
  W(Gen &g) : g(g) {}
  ~W() {
    if (m.mesh)
      m.mesh->free();
    m.mesh = nullptr;
    if (parent != MPI_COMM_NULL)
      MPI_Comm_free(&parent);
  }
  bool ck(bool c) { return c; }

  void build() {
    const int R = nranks();
    m.ndim = 2 + (int)g.draw(2);
    m.subdiv = (int)g.draw(m.ndim == 2 ? 4 : 3);
    const int md = m.ndim == 2 ? 7 : 4;
    for (int d = 0; d < m.ndim; d++)
      m.dims.push_back(g.chance(1, 4) ? 1 : (int)g.integer(1, md));
    while ((m.ndim == 2 ? m.dims[0] * m.dims[1]
                        : m.dims[0] * m.dims[1] * m.dims[2]) >
               (m.ndim == 2 ? 40 : 12) &&
           m.subdiv > (m.ndim == 2 ? 1 : 0))
      m.subdiv--;
    m.stencil = (int)g.draw(4);
    m.extent = g.pick<double>({1.0, 0.5, 2.0, 0.3, 1.7, 0.1, 13.0, 1e-3});
    // a standard decomposition must exist
    auto counts = [&]() {
      std::vector<int> c;
      for (int d = 0; d < m.ndim; d++)
        c.push_back(m.dims[d] << m.subdiv);
      std::sort(c.rbegin(), c.rend());
      return c;
    };
    auto fits = [&]() {
      auto c = counts();
      if (c[0] >= R)
        return true;
      std::vector<int> p(m.ndim, 0);
      MPI_Dims_create(R, m.ndim, p.data());
      std::sort(p.rbegin(), p.rend());
      for (int d = 0; d < m.ndim; d++)
        if (p[d] > c[d])
          return false;
      return true;
    };
    while (!fits())
      m.dims[0]++;
    MPI_Comm comm = MPI_COMM_WORLD;
    if (g.chance(1, 3)) { // a user defined decomposition
      std::vector<std::vector<int>> ok;
      for (int a = 1; a <= R; a++)
        for (int b = 1; b <= R; b++)
          for (int c = 1; c <= (m.ndim == 3 ? R : 1); c++) {
            std::vector<int> q = {a, b, c};
            bool v = a * b * c == R;
            for (int d = 0; d < m.ndim; d++)
              v = v && q[d] <= (m.dims[d] << m.subdiv);
            if (v)
              ok.push_back(q);
          }
      if (!ok.empty()) {
        want_dims = g.pick(ok);
        int periods[3] = {1, 1, 1};
        MPI_Cart_create(MPI_COMM_WORLD, m.ndim, want_dims.data(), periods, 0,
                        &parent);
        comm = parent;
      }
    }
    m.mesh = std::make_shared<CartesianHMesh>(comm, m.ndim, m.dims, m.extent,
                                              m.subdiv, m.stencil);
    m.ncell = m.mesh->get_cell_count();
    m.h = m.extent / (double)(1 << m.subdiv);
    for (int d = 0; d < m.ndim; d++) {
      m.n[d] = m.dims[d] << m.subdiv;
      m.L[d] = m.extent * m.dims[d];
    }
    int me = -1;
    MPI_Comm_rank(m.mesh->get_comm(), &me);
    g.ck(me == rank(), "the mesh communicator reorders ranks");
    int mine[6];
    for (int d = 0; d < 3; d++) {
      mine[d] = m.mesh->cell_starts[d];
      mine[3 + d] = m.mesh->cell_ends[d];
    }
    m.boxes.assign(6 * R, 0);
    MPI_Allgather(mine, 6, MPI_INT, m.boxes.data(), 6, MPI_INT, MPI_COMM_WORLD);
    g.note(m.str(), parent != MPI_COMM_NULL ? " decomposition " + np::str(want_dims)
                                            : std::string(),
           " ranks ", R);
  }

  template <typename F> void all_cells(F f) {
    for (int z = 0; z < m.n[2]; z++)
      for (int y = 0; y < m.n[1]; y++)
        for (int x = 0; x < m.n[0]; x++) {
          const int c[3] = {x, y, z};
          if (g.failed)
            return;
          f(c);
        }
  }
  std::vector<double> vertices(const int *c) {
    static const int o[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0},
                                {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    std::vector<double> v;
    for (int i = 0; i < (m.ndim == 2 ? 4 : 8); i++)
      for (int d = 0; d < 3; d++)
        v.push_back((c[d] + o[i][d]) * m.h);
    return v;
  }
  bool close(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size())
      return false;
    for (std::size_t i = 0; i < a.size(); i++)
      if (std::abs(a[i] - b[i]) > 1e-12 * (m.L[0] + m.L[1] + m.L[2]))
        return false;
    return true;
  }

  void grid() {
    auto &mesh = *m.mesh;
    const int me = rank();
    auto mh = mesh.get_mesh_hierarchy();
    int total = 0;
    for (int r = 0; r < nranks(); r++) {
      int v = 1;
      for (int d = 0; d < m.ndim; d++)
        v *= m.boxes[6 * r + 3 + d] - m.boxes[6 * r + d];
      total += v;
      if (r == me)
        g.ck(v == mesh.get_cell_count() && v == mesh.get_cart_cell_count(),
             "cell count ", mesh.get_cell_count(), " expected ", v);
    }
    if (parent != MPI_COMM_NULL) {
      int d0[3] = {1, 1, 1}, p0[3], c0[3];
      MPI_Cart_get(mesh.get_comm(), m.ndim, d0, p0, c0);
      for (int d = 0; d < m.ndim; d++)
        g.ck(d0[d] == want_dims[d], "the decomposition of the parent "
                                    "communicator is not used");
    }
    int want = 1;
    for (int d = 0; d < m.ndim; d++) {
      want *= m.n[d];
      g.ck(mesh.cell_counts[d] == m.n[d], "cell_counts");
      g.ck(std::abs(mesh.global_extents[d] - m.L[d]) < 1e-12 * m.L[d],
           "global_extents");
    }
    g.ck(total == want, "the ranks own ", total, " cells of ", want);
    g.ck(mesh.get_ndim() == m.ndim && mesh.get_dims() == m.dims &&
             mesh.get_subdivision_order() == m.subdiv,
         "mesh description");
    g.ck(std::abs(mesh.get_cell_width_fine() - m.h) < 1e-14 * m.h &&
             std::abs(mesh.get_cell_width_coarse() - m.extent) < 1e-14 * m.extent &&
             std::abs(mesh.get_inverse_cell_width_fine() * m.h - 1) < 1e-14,
         "cell widths");
    std::set<int> near;
    all_cells([&](const int *c) {
      const int o = m.owner(c);
      if (!g.ck(o >= 0, "cell ", c[0], ",", c[1], ",", c[2], " has ",
                o == -1 ? "no owner" : "several owners"))
        return;
      INT t[3] = {c[0], c[1], c[2]}, mt[6];
      const int q = mesh.get_mesh_tuple_owning_rank(t);
      g.ck(q == o, "get_mesh_tuple_owning_rank gives ", q, " expected ", o);
      mesh.mesh_tuple_to_mh_tuple(t, mt);
      for (int d = 0; d < m.ndim; d++)
        g.ck(mt[d] * (1 << m.subdiv) + mt[m.ndim + d] == c[d] && mt[d] >= 0 &&
                 mt[d] < m.dims[d] && mt[m.ndim + d] >= 0 &&
                 mt[m.ndim + d] < (1 << m.subdiv),
             "mesh_tuple_to_mh_tuple");
      const int ho = mh->get_owner(mh->tuple_to_linear_global(mt));
      g.ck(ho == o, "mesh hierarchy owner ", ho, " expected ", o);
      // distance to this rank's box, periodically
      bool in = true;
      for (int d = 0; d < m.ndim; d++) {
        bool ind = false;
        for (int k = m.boxes[6 * me + d] - m.stencil;
             k < m.boxes[6 * me + 3 + d] + m.stencil; k++)
          ind = ind || (((k % m.n[d]) + m.n[d]) % m.n[d]) == c[d];
        in = in && ind;
      }
      if (in)
        near.insert(o);
    });
    auto nb = mesh.get_local_communication_neighbours();
    g.ck(std::set<int>(nb.begin(), nb.end()) == near && nb.size() == near.size(),
         "neighbours ", np::str(nb), " expected ",
         np::str(std::vector<int>(near.begin(), near.end())));
    // local cells
    auto own = mesh.get_owned_cells();
    auto vtk = mesh.get_vtk_cell_data();
    if (!g.ck((int)own.size() == m.ncell && (int)vtk.size() == m.ncell,
              "number of owned cells"))
      return;
    std::set<std::array<int, 3>> seen;
    for (int i = 0; i < m.ncell && !g.failed; i++) {
      auto t = mesh.get_global_cell_tuple_index(i);
      for (int d = 0; d < m.ndim; d++)
        g.ck(t[d] == own[i][d], "get_global_cell_tuple_index(", i,
             ") disagrees with get_owned_cells");
      int c[3] = {t[0], t[1], m.ndim == 3 ? t[2] : 0};
      g.ck(m.owner(c) == me, "an owned cell is not in the owned range");
      seen.insert(t);
      auto v = vertices(c);
      g.ck(close(mesh.get_vtk_cell_points((INT)i), v) &&
               close(vtk[i].points, v) &&
               vtk[i].num_points == (m.ndim == 2 ? 4 : 8) &&
               vtk[i].cell_type == (m.ndim == 2 ? VTK::CellType::quadrilateral
                                                : VTK::CellType::hex),
           "VTK data of cell ", i);
    }
    g.ck((int)seen.size() == m.ncell, "a cell has two local indices");
    double p[3] = {0, 0, 0};
    mesh.get_point_in_subdomain(p);
    for (int d = 0; d < m.ndim; d++)
      g.ck(p[d] > m.boxes[6 * me + d] * m.h && p[d] < m.boxes[6 * me + 3 + d] * m.h,
           "get_point_in_subdomain is outside");
    g.mark(total > 1);
  }

  void faces() {
    auto &mesh = *m.mesh;
    const int me = rank(), nf = m.ndim == 2 ? 4 : 6;
    // tangential and normal dimensions of each face
    static const int t0[6] = {0, 1, 0, 1, 0, 0}, t1[6] = {2, 2, 2, 2, 1, 1},
                     nd[6] = {1, 0, 1, 0, 2, 2}, hi[6] = {0, 1, 1, 0, 0, 1};
    static const int v2[4][2] = {{0, 1}, {1, 2}, {3, 2}, {0, 3}};
    static const int v3[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {3, 2, 6, 7},
                                 {0, 3, 7, 4}, {0, 1, 2, 3}, {4, 5, 6, 7}};
    INT total = 0;
    for (int f = 0; f < nf; f++)
      total += (INT)m.n[t0[f]] * (m.ndim == 3 ? m.n[t1[f]] : 1);
    if (!g.ck(mesh.ncells_face_global == total, "ncells_face_global ",
              mesh.ncells_face_global, " expected ", total))
      return;
    INT id = 0;
    std::set<INT> mine;
    std::vector<std::vector<INT>> byface(nf);
    for (int f = 0; f < nf; f++)
      for (int l1 = 0; l1 < (m.ndim == 3 ? m.n[t1[f]] : 1); l1++)
        for (int l0 = 0; l0 < m.n[t0[f]]; l0++, id++) {
          INT t[3] = {-1, -1, -1}, u[3] = {f, l0, l1}, mt[3] = {0, 0, 0};
          mesh.get_face_id_as_tuple(id, t);
          if (!g.ck(t[0] == f && t[1] == l0 && (m.ndim == 2 || t[2] == l1),
                    "face cell ", id, " has tuple ", t[0], ",", t[1], ",", t[2],
                    " expected ", f, ",", l0, ",", l1))
            return;
          g.ck(mesh.get_face_linear_index_from_tuple(u) == id,
               "face tuple round trip of ", id);
          mesh.get_mesh_tuple_owning_face_tuple(u, mt);
          int c[3] = {0, 0, 0};
          c[t0[f]] = l0;
          if (m.ndim == 3)
            c[t1[f]] = l1;
          c[nd[f]] = hi[f] ? m.n[nd[f]] - 1 : 0;
          for (int d = 0; d < m.ndim; d++)
            g.ck(mt[d] == c[d], "face cell ", id, " belongs to the wrong cell");
          const int o = m.owner(c);
          const int go = mesh.get_face_id_owning_rank(id);
          if (!g.ck(go == o, "face cell ", id, " has owner ", go, " expected ",
                    o))
            return;
          if (o == me) {
            mine.insert(id);
            byface[f].push_back(id);
          }
          auto v = vertices(c);
          std::vector<double> fp;
          for (int k = 0; k < (m.ndim == 2 ? 2 : 4); k++)
            for (int d = 0; d < 3; d++)
              fp.push_back(v[3 * (m.ndim == 2 ? v2[f][k] : v3[f][k]) + d]);
          g.ck(close(mesh.get_vtk_face_cell_points(id), fp) &&
                   close(mesh.get_vtk_face_cell_points(u), fp),
               "vertices of face cell ", id);
        }
    auto own = mesh.get_owned_face_cells();
    g.ck(std::set<INT>(own.begin(), own.end()) == mine &&
             own.size() == mine.size(),
         "owned face cells ", np::str(own));
    auto data = mesh.get_vtk_face_cell_data();
    g.ck(data.size() == mine.size(), "VTK data of the owned face cells");
    for (auto &d : data)
      g.ck(mine.count(d.first) &&
               close(d.second.points, mesh.get_vtk_face_cell_points(d.first)) &&
               d.second.num_points == (m.ndim == 2 ? 2 : 4),
           "VTK data of face cell ", d.first);
    const uint64_t sel = g.draw(1ull << nf);
    std::vector<int> fs;
    std::set<INT> want;
    for (int f = 0; f < nf; f++) {
      auto a = mesh.get_all_face_cells_on_face(f);
      g.ck(std::set<INT>(a.begin(), a.end()) ==
                   std::set<INT>(byface[f].begin(), byface[f].end()) &&
               a.size() == byface[f].size(),
           "get_all_face_cells_on_face ", f);
      if ((sel >> f) & 1) {
        fs.push_back(f);
        want.insert(byface[f].begin(), byface[f].end());
      }
    }
    auto got = mesh.get_face_cells(fs);
    g.ck(std::set<INT>(got.begin(), got.end()) == want && got.size() == want.size(),
         "get_face_cells");
    int have = mine.empty() ? 0 : 1, ranks = 0, size = 0;
    MPI_Allreduce(&have, &ranks, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    MPI_Comm fc = mesh.get_face_owning_ranks_comm();
    if (have && fc != MPI_COMM_NULL)
      MPI_Comm_size(fc, &size);
    g.ck(have ? (fc != MPI_COMM_NULL && size == ranks) : fc == MPI_COMM_NULL,
         "communicator of the ranks with face cells");
    g.mark();
  }

  void points() {
    const int me = rank(), R = nranks();
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), m.ndim, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1)};
    auto domain = std::make_shared<Domain>(
        m.mesh, CartesianHMeshLocalMapper(target(), m.mesh));
    auto A = std::make_shared<ParticleGroup>(domain, spec, target());
    const int N = (int)g.size(0, 60);
    const uint64_t salt = g.seed32();
    const int kind = (int)g.draw(4);
    struct Pt {
      double p[3];
      int c[3];
      bool edge[3];
    };
    auto point = [&](int id) {
      Pt q;
      for (int d = 0; d < 3; d++) {
        const uint64_t h = pbt::hash(salt, id, d);
        q.c[d] = d < m.ndim ? (int)(h % (uint64_t)m.n[d]) : 0;
        q.edge[d] = false;
        double f = 1e-6 + (1.0 - 2e-6) * (double)((h >> 20) % 1000001) / 1000001.0;
        const int k = (int)((h >> 44) % 5);
        if (kind == 1 && k == 0) {
          f = 0;
          q.edge[d] = true;
        } else if (kind == 2 && k < 2)
          f = k ? 1e-8 : 1.0 - 1e-8;
        q.p[d] = (q.c[d] + f) * m.h;
        if (q.edge[d] && ((h >> 50) & 3) == 0)
          q.p[d] = std::nextafter(q.p[d], (h >> 52) & 1 ? 1e300 : 0.0);
        if (kind == 3 && k == 0 && d < m.ndim) { // upper end of the domain
          q.c[d] = m.n[d] - 1;
          q.p[d] = std::nextafter(m.L[d], 0.0);
        }
      }
      return q;
    };
    ParticleSet ps(N, spec);
    for (int i = 0; i < N; i++) {
      const int id = me * 1000 + i;
      auto q = point(id);
      for (int d = 0; d < m.ndim; d++)
        ps[Sym<REAL>("P")][i][d] = q.p[d];
      ps[Sym<INT>("CELL_ID")][i][0] = 0;
      ps[Sym<INT>("ID")][i][0] = id;
    }
    A->add_particles_local(ps);
    A->hybrid_move();
    A->cell_move();
    auto rows = snapshot(g, A);
    for (auto &r : rows) {
      const int id = (int)r.i["ID"][0];
      auto q = point(id);
      auto t = m.mesh->get_global_cell_tuple_index(r.cell);
      for (int d = 0; d < m.ndim; d++) {
        const bool ok = t[d] == q.c[d] || (q.edge[d] && t[d] == q.c[d] - 1);
        std::ostringstream o;
        o.precision(17);
        o << q.p[d] / m.h;
        if (!g.ck(ok, "particle ", id, " at ", o.str(), " cell widths in dimension ",
                  d, " is in cell ", t[d], " on rank ", me, " expected ", q.c[d]))
          return;
      }
    }
    int n = (int)rows.size(), sum = 0;
    MPI_Allreduce(&n, &sum, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    g.ck(sum == N * R, "particles lost: ", sum, " of ", N * R);
    g.mark(N > 0);
    A->free();
  }
};

// One dimensional decompositions and their inverse.
void decomp(Gen &g) {
  const std::size_t N = 1 + (std::size_t)g.size(0, 40),
                    W = (std::size_t)g.size(0, 500);
  std::size_t at = 0, mn = W + 1, mx = 0;
  for (std::size_t r = 0; r < N; r++) {
    std::size_t a = 99, b = 98;
    get_decomp_1d(N, W, r, &a, &b);
    int ia = 0, ib = 0;
    get_decomp_1d((int)N, (int)W, (int)r, &ia, &ib);
    g.ck(a == at && b >= a && ia == (int)a && ib == (int)b, "range of unit ", r,
         " of ", N, " over ", W, " items is ", a, "-", b, " / ", ia, "-", ib);
    for (std::size_t i = a; i < b && i < W; i++) {
      const std::size_t o = get_decomp_1d_inverse(N, W, i);
      if (!g.ck(o == r, "item ", i, " of ", W, " over ", N, " units: inverse ",
                o, " expected ", r))
        return;
    }
    mn = std::min(mn, b - a);
    mx = std::max(mx, b - a);
    at = b;
  }
  g.ck(at == W, "the units cover ", at, " of ", W, " items");
  g.ck(mx - mn <= 1, "unbalanced: ", mn, " to ", mx);
  g.note("decomposition of ", W, " items over ", N);
  g.mark(W > 1 && N > 1);
}

void prop(Gen &g) {
  const int what = (int)g.draw(7);
  if (what == 0) {
    decomp(g);
    g.label("1D decomposition");
    return;
  }
  gen_nodes(g, nranks());
  W w(g);
  w.build();
  g.sync();
  if (what < 3)
    w.grid();
  else if (what < 5)
    w.faces();
  else
    w.points();
  g.label(what < 3 ? "grid" : what < 5 ? "faces" : "points");
}

} // namespace

PBT_MAIN("C14", prop)
