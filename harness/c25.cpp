// C25: parallel initialisation and the decomposition of items over ranks.
#include "np.hpp"
#include <neso_particles/utility.hpp>
using namespace np;

namespace {

// ------------------------------------------------------- ranges over workers
template <typename T> void ranges(Gen &g, const char *w) {
  const int64_t nw = g.pick<int64_t>({1, 2, 3, 4, 7, 16, 64, 100});
  const int64_t n = g.boolean() ? g.integer(0, 3 * nw + 2)
                                : (g.boolean() ? g.integer(0, 5000)
                                               : nw * g.integer(0, 200) +
                                                     g.integer(0, nw - 1));
  T expect = 0;
  const T lo = (T)(n / nw);
  T prev = std::numeric_limits<T>::max();
  for (int64_t i = 0; i < nw; i++) {
    T s = 77, e = 77;
    get_decomp_1d((T)nw, (T)n, (T)i, &s, &e);
    if (!g.ck(s == expect, w, ": worker ", i, " of ", nw, " starts at ", s,
              " of ", n, " items, the one before ends at ", expect))
      return;
    const T c = e - s;
    if (!g.ck(e >= s && (c == lo || c == lo + 1) && c <= prev, w, ": worker ", i,
              " of ", nw, " gets ", c, " of ", n, " items"))
      return;
    prev = c;
    expect = e;
    for (T x = s; x < e; x++) {
      const std::size_t o = get_decomp_1d_inverse(
          (std::size_t)nw, (std::size_t)n, (std::size_t)x);
      if (!g.ck(o == (std::size_t)i, w, ": item ", x, " of ", n,
                " is given to worker ", i, " of ", nw, " but reported as of ", o))
        return;
    }
  }
  g.ck(expect == (T)n, w, ": ", expect, " of ", n, " items are given out to ", nw,
       " workers");
  g.mark(n > nw && nw > 1);
  if (n < nw)
    g.label("fewer items than workers");
}
void integers(Gen &g) {
  for (int i = 0; i < 20; i++) {
    const int64_t a = g.boolean() ? g.integer(1, 70) : g.integer(1, 1 << 24);
    const int64_t b = g.boolean() ? g.integer(1, 70) : g.integer(1, 1 << 24);
    const int64_t up = a % b == 0 ? a / b : a / b + 1;
    g.ck(div_round_up((INT)a, (INT)b) == up, "div_round_up(", a, ",", b, ")");
    g.ck(div_round_up((int)a, (int)b) == up, "div_round_up(", a, ",", b, ")");
    g.ck(div_round_up((INT)0, (INT)b) == 0, "div_round_up(0,", b, ")");
    g.ck(get_next_multiple((std::size_t)a, (std::size_t)b) == (std::size_t)(up * b),
         "get_next_multiple(", a, ",", b, ") = ",
         get_next_multiple((std::size_t)a, (std::size_t)b));
    int64_t p = 1;
    while (p * 2 <= a)
      p *= 2;
    g.ck(get_prev_power_of_two((INT)a) == p, "get_prev_power_of_two(", a, ") = ",
         get_prev_power_of_two((INT)a));
    g.ck(is_power_of_two((std::size_t)a) == (p == a), "is_power_of_two(", a, ")");
    g.ck(is_power_of_two((std::size_t)p), "is_power_of_two(", p, ")");
    g.ck(!is_power_of_two(0), "is_power_of_two(0)");
    const std::size_t cap = (std::size_t)1 << g.integer(2, 12);
    const INT m = get_min_power_of_two((INT)a, cap);
    g.ck(is_power_of_two(m) && (std::size_t)m <= cap &&
             (m > a || (std::size_t)m == cap) && m >= 4 &&
             (m == 4 || (std::size_t)m == cap || m <= 2 * a),
         "get_min_power_of_two(", a, ",", cap, ") = ", m);
  }
  g.mark();
}

// ----------------------------------------------------------- point generators
void generators(Gen &g) {
  const int ndim = (int)g.integer(1, 3), N = (int)g.size(0, 200);
  const uint32_t seed = (uint32_t)g.seed32();
  double ext[3];
  for (auto &e : ext)
    e = g.pick<double>({1.0, 0.25, 3.7, 1e-8, 1e8, 0.0});
  std::mt19937 r1(seed), r2(seed);
  auto a = g.boolean() ? uniform_within_extents(N, ndim, ext)
                       : uniform_within_extents(N, ndim, ext, r1);
  if (!g.ck((int)a.size() == ndim, "uniform_within_extents: dimensions"))
    return;
  std::set<double> seen;
  for (int d = 0; d < ndim; d++) {
    if (!g.ck((int)a[d].size() == N, "uniform_within_extents: ", a[d].size(),
              " points expected ", N))
      return;
    for (double x : a[d]) {
      g.ck(x >= 0 && (x < ext[d] || ext[d] == 0 || x <= ext[d]),
           "uniform_within_extents: ", x, " outside [0,", ext[d], ")");
      if (ext[d] > 0)
        seen.insert(x);
    }
    if (N >= 100 && ext[d] > 0) {
      // every eighth of the extent is hit (missed with probability < 1e-4
      // only below 100 points; with 100 points 8 * (7/8)^100 ~ 1e-5)
      double lo = ext[d], hi = 0;
      for (double x : a[d]) {
        lo = std::min(lo, x);
        hi = std::max(hi, x);
      }
      g.ck(lo < 0.4 * ext[d] && hi > 0.6 * ext[d],
           "uniform_within_extents: the points of dimension ", d, " span [", lo,
           ",", hi, "] of [0,", ext[d], "]");
    }
  }
  // a generator is advanced: two calls give different points
  std::mt19937 r3(seed);
  auto u = uniform_within_extents(N, ndim, ext, r3);
  auto v = uniform_within_extents(N, ndim, ext, r3);
  if (N > 3 && ext[0] > 0)
    g.ck(u[0] != v[0], "uniform_within_extents: repeated points");
  auto u2 = uniform_within_extents(N, ndim, ext, r2);
  g.ck(u == u2, "uniform_within_extents: depends on more than the generator");
  if (ndim > 1 && N > 3 && ext[0] == ext[1] && ext[0] > 0)
    g.ck(u[0] != u[1], "uniform_within_extents: equal components");
  const double mu = g.pick<double>({0.0, 1.0, -50.0}),
               sig = g.pick<double>({1.0, 1e-3, 2.5});
  auto b = g.boolean() ? normal_distribution(N, ndim, mu, sig)
                       : normal_distribution(N, ndim, mu, sig, r2);
  g.ck((int)b.size() == ndim, "normal_distribution: dimensions");
  for (auto &c : b) {
    g.ck((int)c.size() == N, "normal_distribution: points");
    double m = 0, s = 0;
    for (double x : c) {
      g.ck(std::abs(x - mu) < 9 * sig, "normal_distribution: ", x, " for mean ", mu,
           " width ", sig);
      m += (x - mu) / sig;
      s += (x - mu) * (x - mu) / (sig * sig);
    }
    if (N >= 100) {
      g.ck(std::abs(m / N) < 7.0 / std::sqrt((double)N),
           "normal_distribution: mean ", mu + sig * m / N, " for ", mu);
      g.ck(s / N > 0.2 && s / N < 3, "normal_distribution: variance ratio ",
           s / N);
    }
  }
  g.mark(N > 1);
}

// ------------------------------------------------------- points in each cell
void cell_points(Gen &g) {
  const int me = np::rank();
  CartMesh M;
  CartMesh::Opts o;
  o.dyadic = g.boolean();
  M.gen(g, o);
  const bool single = g.chance(1, 4);
  M.mesh->single_cell_mode = single;
  const int npc = (int)g.size(0, 12);
  const uint32_t seed = (uint32_t)g.seed32() + (uint32_t)me;
  std::vector<std::vector<double>> pos;
  std::vector<int> cells;
  const bool seeded = g.boolean();
  if (seeded)
    uniform_within_cartesian_cells(M.mesh, npc, pos, cells, std::mt19937(seed));
  else
    uniform_within_cartesian_cells(M.mesh, npc, pos, cells);
  g.note(M.str(), " ", npc, " per cell", single ? " one cell per rank" : "");
  int ncart = 1, w[3] = {1, 1, 1};
  const int *b = &M.boxes[6 * me];
  for (int d = 0; d < M.ndim; d++) {
    w[d] = b[3 + d] - b[d];
    ncart *= w[d];
  }
  const int N = ncart * npc;
  g.ck((int)cells.size() == N && (int)pos.size() == M.ndim, "points in cells: ",
       cells.size(), " points expected ", N);
  std::vector<int> hits(ncart, 0);
  bool near = false; // within rounding of an upper cell edge
  for (int p = 0; p < N && !g.failed; p++) {
    int c[3] = {0, 0, 0}, lin = 0;
    for (int d = M.ndim - 1; d >= 0; d--) {
      const double x = pos[d].at(p) / M.h;
      c[d] = (int)std::floor(x);
      if (std::abs(x - std::round(x)) < 1e-12 * (1 + std::abs(x)))
        near = true;
      lin = lin * w[d] + (c[d] - b[d]);
      g.ck(c[d] >= b[d] && c[d] < b[3 + d], "points in cells: point ", p,
           " component ", d, " is ", pos[d][p], ", outside the cells of the rank");
    }
    if (g.failed || near)
      break;
    hits.at(lin)++;
    g.ck(cells[p] == (single ? 0 : lin), "points in cells: point ", p,
         " reported in cell ", cells[p], " is in cell ", lin);
  }
  if (!near && !g.failed)
    for (int c = 0; c < ncart; c++)
      g.ck(hits[c] == npc, "points in cells: ", hits[c], " points in cell ", c,
           " expected ", npc);
  if (seeded && !g.failed) {
    std::vector<std::vector<double>> pos2;
    std::vector<int> cells2;
    uniform_within_cartesian_cells(M.mesh, npc, pos2, cells2,
                                   std::mt19937(seed));
    g.ck(pos == pos2 && cells == cells2, "points in cells: not reproducible");
  }
  M.mesh->single_cell_mode = false;
  g.sync();
  // the point given for the rank is in the subdomain of the rank
  REAL pt[3] = {-1, -1, -1};
  M.mesh->get_point_in_subdomain(pt);
  for (int d = 0; d < M.ndim; d++)
    g.ck(pt[d] > b[d] * M.h * (1 - 1e-12) && pt[d] < b[3 + d] * M.h,
         "point in the subdomain: ", pt[d], " outside [", b[d] * M.h, ",",
         b[3 + d] * M.h, "] in dimension ", d);
  g.sync();
  g.mark(ncart > 1 && npc > 1);
}

// ------------------------------------------------------------ initialisation
void advect(Gen &g) {
  const int me = np::rank(), nr = np::nranks();
  CartMesh M;
  CartMesh::Opts o;
  o.dyadic = g.boolean();
  M.gen(g, o);
  const int ndim = M.ndim;
  const bool exact_edges = M.extent == 0.5 || M.extent == 1 || M.extent == 2 ||
                           M.extent == 4;
  const bool hmesh_only = g.chance(1, 3);
  DomainSharedPtr domain;
  if (hmesh_only)
    domain = std::make_shared<Domain>(M.mesh);
  else
    domain = std::make_shared<Domain>(
        M.mesh, CartesianHMeshLocalMapper(target(), M.mesh));
  const int nv = (int)g.integer(1, 4), nk = (int)g.integer(1, 3);
  ParticleSpec spec;
  if (g.boolean())
    spec.push(ParticleProp(Sym<REAL>("A"), nv));
  spec.push(ParticleProp(Sym<REAL>("P"), ndim, true));
  spec.push(ParticleProp(Sym<INT>("CELL_ID"), 1, true));
  spec.push(ParticleProp(Sym<INT>("ID"), 1));
  spec.push(ParticleProp(Sym<REAL>("V"), nv));
  spec.push(ParticleProp(Sym<INT>("Z"), nk));
  const bool hasA = spec.properties_real.at(0).name == "A";
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  const int nmax = (int)g.size(0, 120);
  const int who = (int)g.draw(3);
  const uint64_t salt = g.seed32();
  const int edge = (int)g.draw(4); // 3: next to the upper end of the domain
  const int nsteps = g.pick<int>({20, 1, 2, 3, 7});
  g.note(M.str(), " up to ", nmax, " per rank, distribution ", who, " steps ",
         nsteps, " edge ", edge, hmesh_only ? " no local mapper" : "");
  Model m;
  INT next = 1;
  int remote = 0, total = 0;
  for (int r = 0; r < nr; r++) {
    const int nl = who == 0   ? nmax
                   : who == 1 ? (r == (int)(salt % nr) ? nmax : 0)
                              : (int)(pbt::hash(salt, r) % (nmax + 1));
    std::unique_ptr<ParticleSet> ps;
    if (r == me)
      ps = std::make_unique<ParticleSet>(nl, A->get_particle_spec());
    for (int p = 0; p < nl; p++) {
      const INT id = next++;
      Rec rec;
      int c[3] = {0, 0, 0};
      for (int d = 0; d < ndim; d++) {
        c[d] = (int)(pbt::hash(id, salt, d, 1) % (uint64_t)M.n[d]);
        double x;
        const uint64_t q = pbt::hash(id, salt, d, 2);
        if (edge == 3 && q % 3 == 0) {
          c[d] = M.n[d] - 1;
          x = std::nextafter(M.L[d], 0.0);
          for (uint64_t k = 0; k < (q >> 8) % 4; k++)
            x = std::nextafter(x, 0.0);
          if (!exact_edges)
            x = (c[d] + 0.999) * M.h;
        } else if (edge == 2 && exact_edges && q % 3 == 0) {
          x = c[d] * M.h; // on the lower edge of the cell
        } else {
          x = ((double)c[d] + 0.001 + 0.998 * ((double)(q >> 11) * 0x1p-53)) *
              M.h;
        }
        rec.r["P"].push_back(x);
      }
      rec.rank = M.owner(c);
      rec.cell = rec.rank >= 0 ? M.local_cell(rec.rank, c) : -1;
      g.ck(rec.rank >= 0, "cell not owned by exactly one rank");
      remote += rec.rank != r;
      total++;
      const INT start_cell = 0;
      rec.i["ID"] = {id};
      for (int k = 0; k < nv; k++) {
        rec.r["V"].push_back(rval(id, 1, k, salt));
        if (hasA)
          rec.r["A"].push_back(rval(id, 3, k, salt));
      }
      for (int k = 0; k < nk; k++)
        rec.i["Z"].push_back(ival(id, 2, k, salt));
      if (r == me) {
        for (auto &v : rec.r)
          for (size_t k = 0; k < v.second.size(); k++)
            ps->at(Sym<REAL>(v.first), p, k) = v.second[k];
        for (auto &v : rec.i)
          for (size_t k = 0; k < v.second.size(); k++)
            ps->at(Sym<INT>(v.first), p, k) = v.second[k];
        ps->at(Sym<INT>("CELL_ID"), p, 0) = start_cell;
      }
      m[id] = rec;
    }
    if (r == me)
      A->add_particles_local(*ps);
  }
  g.sync();
  if (g.boolean())
    parallel_advection_initialisation(A, nsteps);
  else {
    // the steps a user may take with moves in between
    parallel_advection_store(A);
    for (int s = 0; s < nsteps; s++) {
      parallel_advection_step(A, nsteps, s);
      A->hybrid_move();
    }
    parallel_advection_restore(A);
    A->hybrid_move();
  }
  g.ck(!A->contains_dat(Sym<REAL>("NESO_ORIG_POS")),
       "the stored positions were not removed");
  if (!hmesh_only)
    A->cell_move();
  CompareOpts co;
  co.ignore = {"NESO_MPI_RANK", "CELL_ID"};
  co.cells = !hmesh_only;
  auto rows = snapshot(g, A);
  compare(g, rows, m, co, "after the initialisation");
  if (!g.failed && !hmesh_only)
    for (auto &row : rows)
      g.ck(row.i.at("CELL_ID")[0] == row.cell, "after the initialisation: particle ",
           row.i.at("ID")[0], " has cell ", row.i.at("CELL_ID")[0],
           " stored in cell ", row.cell);
  g.sync();
  const INT ng = get_npart_global(A);
  g.ck(ng == total, "get_npart_global: ", ng, " expected ", total);
  auto sub = particle_sub_group(
      A, [=](auto ID) { return ID.at(0) % 3 == 0; },
      Access::read(Sym<INT>("ID")));
  const INT ns = get_npart_global(sub);
  g.ck(ns == total / 3, "get_npart_global of a sub group: ", ns, " expected ",
       total / 3);
  g.sync();
  g.mark(total > 1 && (nr == 1 || remote > 0));
  if (remote)
    g.label("particles moved to another rank");
}

void prop(Gen &g) {
  switch (g.weighted({2, 1, 2, 3, 6})) {
  case 0:
    g.label("ranges");
    switch (g.draw(4)) {
    case 0:
      return ranges<int>(g, "int");
    case 1:
      return ranges<INT>(g, "INT");
    case 2:
      return ranges<std::size_t>(g, "size_t");
    default:
      return ranges<long long>(g, "long long");
    }
  case 1:
    g.label("integers");
    return integers(g);
  case 2:
    g.label("generators");
    return generators(g);
  case 3:
    g.label("points per cell");
    return cell_points(g);
  default:
    g.label("initialisation");
    return advect(g);
  }
}
} // namespace
PBT_MAIN("C25", prop)
