// C23: projection onto unstructured meshes conserves and evaluation reproduces.
#include "mpifix.hpp"
#include "plexmesh.hpp"
using namespace np;
using namespace PetscInterface;

namespace {

double unit(uint64_t h) { return (double)(h >> 11) * 0x1p-53; }

void dof_mapper(Gen &g) {
  g.label("dof mapper");
  const int nc = (int)g.size(0, 12), nd = (int)g.size(1, 5);
  const int n = nc * nd, gap = (int)g.draw(3);
  const uint64_t salt = g.seed32();
  std::vector<std::pair<uint64_t, int>> o;
  for (int i = 0; i < n; i++)
    o.push_back({pbt::hash(salt, i), i});
  std::sort(o.begin(), o.end());
  ExternalCommon::DOFMapperDG m(target(), nc, nd);
  std::vector<int> ext(n);
  for (int i = 0; i < n; i++)
    ext[o[i].second] = i;
  auto cdc = std::make_shared<CellDatConst<REAL>>(target(), nc, nd, 1);
  std::vector<REAL> in(n, 0.0);
  for (int c = 0; c < nc; c++)
    for (int d = 0; d < nd; d++)
      m.set(c, d, ext[c * nd + d]);
  const int steps = (int)g.size(1, 5);
  for (int s = 0; s < steps && !g.failed; s++) {
    const int op = (int)g.draw(3);
    if (op == 0) {
      for (int c = 0; c < nc; c++)
        for (int d = 0; d < nd; d++) {
          in[c * nd + d] = rval(c * nd + d, s, 1, salt);
          cdc->set_value(c, d, 0, in[c * nd + d]);
        }
    } else if (op == 1) {
      std::vector<REAL> out(n + gap, -7.5);
      EventStack es;
      m.copy_to_external(cdc, out.data(), es);
      es.wait();
      for (int i = 0; i < n; i++)
        g.ck(out[ext[i]] == in[i], "external DOF ", ext[i], " is ", out[ext[i]], ", the internal DOF ", i, " is ", in[i]);
      for (int i = n; i < n + gap; i++)
        g.ck(out[i] == -7.5, "a value behind the DOFs was written");
    } else {
      std::vector<REAL> out(n + gap);
      for (int i = 0; i < n + gap; i++)
        out[i] = rval(i, s, 2, salt);
      auto keep = out;
      EventStack es;
      m.copy_from_external(cdc, out.data(), es);
      es.wait();
      g.ck(out == keep, "copying from the external DOFs changed them");
      for (int i = 0; i < n; i++)
        in[i] = keep[ext[i]];
      for (int c = 0; c < nc; c++)
        for (int d = 0; d < nd; d++)
          g.ck(cdc->get_value(c, d, 0) == in[c * nd + d], "internal DOF (", c, ",", d, ") is ", cdc->get_value(c, d, 0), ", external ", in[c * nd + d]);
    }
    for (int c = 0; c < nc; c++)
      for (int d = 0; d < nd; d++)
        g.ck(m.get(c, d) == ext[c * nd + d] && m.index(c, d) == c * nd + d, "index map");
  }
  g.mark(n >= 2);
}

struct World {
  PlexMesh m;
  std::shared_ptr<Domain> domain;
  ParticleGroupSharedPtr A;
  int npart{0};
  uint64_t salt{0};
  std::vector<Pt> where;

  bool make(Gen &g, int maxp) {
    PlexMesh::Opts o;
    o.slivers = false;
    m.make(g, o);
    const bool ok = m.identify(g);
    g.sync();
    if (!ok || g.failed)
      return false;
    domain = std::make_shared<Domain>(m.mesh, std::make_shared<DMPlexLocalMapper>(target(), m.mesh));
    npart = (int)g.size(0, maxp);
    salt = g.seed32();
    const bool edges = g.boolean();
    for (int i = 0; i < npart; i++)
      where.push_back(plex_point(m, pbt::hash(salt, i), edges, false));
    return true;
  }
  void particles() {
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<REAL>("W1"), 1),      ParticleProp(Sym<REAL>("W2"), 2),           ParticleProp(Sym<REAL>("W3"), 3),
                      ParticleProp(Sym<REAL>("E1"), 1),      ParticleProp(Sym<REAL>("E2"), 2),           ParticleProp(Sym<REAL>("E3"), 3)};
    A = std::make_shared<ParticleGroup>(domain, spec, target());
    std::vector<INT> mine;
    for (int id = 0; id < npart; id++)
      if ((int)(pbt::hash(salt, id, 777) % nranks()) == rank())
        mine.push_back(id);
    ParticleSet init((int)mine.size(), spec);
    for (std::size_t i = 0; i < mine.size(); i++) {
      for (int d = 0; d < 2; d++)
        init[Sym<REAL>("P")][i][d] = where[mine[i]][d];
      init[Sym<INT>("CELL_ID")][i][0] = (INT)(pbt::hash(salt, mine[i], 778) % m.mesh->get_cell_count());
      init[Sym<INT>("ID")][i][0] = mine[i];
      for (int k = 1; k <= 3; k++)
        for (int c = 0; c < k; c++) {
          init[Sym<REAL>("W" + std::to_string(k))][i][c] = weight(mine[i], k, c);
          init[Sym<REAL>("E" + std::to_string(k))][i][c] = -77.25;
        }
    }
    A->add_particles_local(init);
    A->hybrid_move();
    A->cell_move();
  }
  REAL weight(INT id, int k, int c) const {
    const uint64_t h = pbt::hash(salt, id, k, 100 + c);
    return h % 8 == 0 ? 0.0 : std::ldexp(0.25 + unit(h), (int)(h % 5) - 2);
  }
  void reset_outputs() {
    particle_loop(
        A,
        [=](auto a, auto b, auto c) {
          a.at(0) = -77.25;
          b.at(0) = b.at(1) = -77.25;
          c.at(0) = c.at(1) = c.at(2) = -77.25;
        },
        Access::write(Sym<REAL>("E1")), Access::write(Sym<REAL>("E2")), Access::write(Sym<REAL>("E3")))
        ->execute();
  }
  ParticleSubGroupSharedPtr sub(int mod, int r) {
    return particle_sub_group(
        A, [=](auto ID) { return ID.at(0) % mod == r; }, Access::read(Sym<INT>("ID")));
  }
};

Sym<REAL> sym(const char *p, int k) { return Sym<REAL>(p + std::to_string(k)); }

// Values at arbitrary points, added by any rank.
void points(Gen &g) {
  g.label("points");
  World w;
  if (!w.make(g, 40))
    return;
  auto qpm = std::make_shared<ExternalCommon::QuadraturePointMapper>(target(), w.domain);
  g.ck(!qpm->points_added(), "points_added before any");
  std::vector<int> mine;
  const int skew = (int)g.draw(3); // by hash, all on one rank, where they are
  for (int i = 0; i < w.npart; i++) {
    int r = skew == 1 ? 0 : (int)(pbt::hash(w.salt, i, 3) % nranks());
    if (skew == 2) {
      double best = -1e300;
      for (std::size_t e = 0; e < w.m.c.size(); e++)
        if (w.m.depth((int)e, w.where[i]) > best)
          best = w.m.depth((int)e, w.where[i]), r = w.m.part[e];
    }
    if (r == rank())
      mine.push_back(i);
  }
  qpm->add_points_initialise();
  for (int i : mine)
    qpm->add_point(w.where[i].data());
  qpm->add_points_finalise();
  g.ck(qpm->points_added(), "points_added after adding");
  const int n = (int)mine.size();
  std::map<int, std::vector<REAL>> model;
  const int steps = (int)g.size(1, 6);
  for (int s = 0; s < steps && !g.failed; s++) {
    const int k = 1 + (int)g.draw(3);
    const int op = (int)g.draw(4);
    const double a = g.real(-2, 2), b = g.real(-2, 2);
    if (op == 0) { // set
      std::vector<REAL> in;
      for (int i : mine)
        for (int c = 0; c < k; c++)
          in.push_back(rval(i, s, c, w.salt));
      auto keep = in;
      qpm->set(k, in);
      g.ck(in == keep, "set changed its input");
      model[k] = in;
    } else if (op == 1) { // a function of the position
      auto f = [=](const REAL x, const REAL y) { return x + a; };
      auto h = [=](const REAL x, const REAL y) { return y + b; };
      auto z = [=](const REAL x, const REAL y) { return x; };
      if (k == 1)
        ExternalCommon::interpolate<2, 1>(qpm, f);
      else if (k == 2)
        ExternalCommon::interpolate<2, 2>(qpm, f, h);
      else
        ExternalCommon::interpolate<2, 3>(qpm, f, h, z);
      model[k].clear();
      for (int i : mine) {
        REAL v[3] = {w.where[i][0] + a, w.where[i][1] + b, w.where[i][0]};
        for (int c = 0; c < k; c++)
          model[k].push_back(v[c]);
      }
    } else if (op == 2) { // one component
      const int c = (int)g.draw(k);
      ExternalCommon::interpolate<2>(qpm, k, c, [=](const REAL x, const REAL y) { return y + a; });
      if ((int)model[k].size() != n * k) // the other components are not set
        model[k].assign(n * k, std::nan(""));
      for (int i = 0; i < n; i++)
        model[k][i * k + c] = w.where[mine[i]][1] + a;
    } else if (model.count(k)) {
      std::vector<REAL> out(g.boolean() ? n * k : 0, 1.0);
      qpm->get(k, out);
      g.ck((int)out.size() == n * k, "get returns ", out.size(), " values for ", n, " points of ", k, " components");
      if ((int)out.size() == n * k)
        for (int i = 0; i < n * k; i++)
          g.ck(std::isnan(model[k][i]) || out[i] == model[k][i], "point ", i / k, " component ", i % k, ": ", out[i], ", expected ", model[k][i]);
    }
    g.sync();
  }
  for (auto &x : model) {
    std::vector<REAL> out;
    qpm->get(x.first, out);
    if (out.size() == x.second.size())
      for (std::size_t i = 0; i < out.size(); i++)
        if (std::isnan(x.second[i]))
          out[i] = x.second[i] = 0.0;
    g.ck(same(out, x.second), "the values of ", x.first, " components are ", str(out), ", expected ", str(x.second));
  }
  // every point is held once, at its position, in its cell
  std::vector<int> have(w.npart + 1, 0), all(w.npart + 1, 0);
  auto rows = snapshot(g, qpm->particle_group);
  for (auto &r : rows) {
    Pt p{r.r["P"][0], r.r["P"][1]};
    g.ck(w.m.depth(w.m.element[rank()][r.cell], p) >= -w.m.tol(), "a point is stored in a cell which does not contain it");
  }
  int64_t nl = (int64_t)rows.size(), ng = 0;
  MPI_Allreduce(&nl, &ng, 1, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
  g.ck(ng == w.npart, ng, " points are held, ", w.npart, " were added");
  g.mark(w.npart >= 2);
  qpm->free();
  g.sync();
}

void dg(Gen &g) {
  g.label("dg");
  World w;
  if (!w.make(g, 80))
    return;
  w.particles();
  const int nc = w.m.mesh->get_cell_count();
  const bool use_qpm = g.chance(2, 3);
  ExternalCommon::QuadraturePointMapperSharedPtr qpm;
  std::shared_ptr<DMPlexProjectEvaluate> top;
  std::shared_ptr<DMPlexProjectEvaluateDG> pe;
  if (use_qpm) {
    qpm = make_quadrature_point_mapper_average(target(), w.domain);
    if (g.boolean())
      top = std::make_shared<DMPlexProjectEvaluate>(qpm, "DG", 0);
    else
      pe = std::make_shared<DMPlexProjectEvaluateDG>(qpm, "DG", 0);
  } else {
    pe = std::make_shared<DMPlexProjectEvaluateDG>(w.m.mesh, target(), "DG", 0);
  }
  auto rows = snapshot(g, w.A);
  std::vector<std::vector<REAL>> dof(nc, std::vector<REAL>(3, 0.0)); // rows
  std::vector<std::vector<REAL>> mag(nc, std::vector<REAL>(3, 0.0));  // tolerance
  std::map<int, std::vector<std::vector<REAL>>> qv, qm;
  int nrow = 1;
  bool known = false;
  const int steps = (int)g.size(2, 8);
  auto near = [&](REAL v, int c, int d) { return std::fabs(v - dof[c][d]) <= 1e-11 * mag[c][d] || v == dof[c][d]; };
  for (int s = 0; s < steps && !g.failed; s++) {
    const int op = s == 0 ? 0 : (int)g.draw(6);
    int k = 1 + (int)g.draw(3);
    const bool use_sub = g.chance(1, 3);
    const int mod = 1 + (int)g.draw(4), rem = (int)g.draw(mod + 1);
    auto in = [&](INT id) { return !use_sub || id % mod == rem; };
    if (op == 0 || op == 1) {
      if (use_sub) {
        if (top)
          top->project(w.sub(mod, rem), sym("W", k));
        else
          pe->project(w.sub(mod, rem), sym("W", k));
      } else {
        if (top)
          top->project(w.A, sym("W", k));
        else
          pe->project(w.A, sym("W", k));
      }
      nrow = std::max(nrow, k);
      for (int c = 0; c < nc; c++) {
        dof[c].assign(3, 0.0);
        mag[c].assign(3, 0.0);
      }
      std::vector<double> tot(3, 0.0), gtot(3, 0.0);
      for (auto &r : rows) {
        const INT id = r.i["ID"][0];
        if (in(id))
          for (int d = 0; d < k; d++) {
            const double x = w.weight(id, k, d) / w.m.area(w.m.element[rank()][r.cell]);
            dof[r.cell][d] += x;
            mag[r.cell][d] += std::fabs(x);
          }
      }
      for (int c = 0; c < nc; c++)
        for (int d = 0; d < 3; d++) // the volumes are of about this quality
          mag[c][d] *= 1.0 + 1e-3 * w.m.big * w.m.big / w.m.area(w.m.element[rank()][c]);
      known = true;
      if (use_qpm)
        qv[k] = dof, qm[k] = mag;
    } else if (op == 2) {
      if (!use_qpm && k > nrow)
        k = nrow;
      if (use_qpm && !qv.count(k)) {
        if (qv.empty())
          continue;
        k = qv.begin()->first;
      }
      w.reset_outputs();
      if (use_sub) {
        if (top)
          top->evaluate(w.sub(mod, rem), sym("E", k));
        else
          pe->evaluate(w.sub(mod, rem), sym("E", k));
      } else {
        if (top)
          top->evaluate(w.A, sym("E", k));
        else
          pe->evaluate(w.A, sym("E", k));
      }
      if (use_qpm) {
        if (k > nrow) {
          for (int c = 0; c < nc; c++)
            dof[c].assign(3, 0.0), mag[c].assign(3, 0.0);
          nrow = k;
        }
        for (int c = 0; c < nc; c++)
          for (int d = 0; d < k; d++)
            dof[c][d] = qv[k][c][d], mag[c][d] = qm[k][c][d];
      }
      auto now = snapshot(g, w.A);
      g.ck(now.size() == rows.size(), "evaluate changed the number of particles");
      for (auto &r : now) {
        const INT id = r.i["ID"][0];
        for (int q = 1; q <= 3; q++)
          for (int d = 0; d < q; d++) {
            const REAL v = r.r["E" + std::to_string(q)][d];
            if (q == k && in(id))
              g.ck(near(v, r.cell, d), "step ", s, " evaluate of ", k, " components: particle ", id, " in cell ", r.cell, " gets ", v, " for component ", d, ", expected ", dof[r.cell][d]);
            else
              g.ck(v == -77.25, "step ", s, " evaluate changed a value it does not write (particle ", id, ")");
            g.ck(r.r["W" + std::to_string(q)][d] == w.weight(id, q, d), "evaluate changed the weights");
          }
      }
      g.label("evaluate");
    } else if (op == 3 && pe) {
      std::vector<REAL> in2;
      for (int c = 0; c < nc; c++) {
        dof[c].assign(3, 0.0);
        mag[c].assign(3, 0.0);
        for (int d = 0; d < k; d++) {
          in2.push_back(rval(c, s, d, w.salt));
          dof[c][d] = in2.back();
        }
      }
      pe->set_dofs(k, in2);
      nrow = std::max(nrow, k);
      known = true;
    } else if (op == 4 && pe && known) {
      k = std::min(k, nrow);
      std::vector<REAL> out(g.boolean() ? 3 : 0);
      pe->get_dofs(k, out);
      g.ck((int)out.size() == nc * k, "get_dofs gives ", out.size(), " values for ", nc, " cells and ", k, " components");
      if ((int)out.size() == nc * k)
        for (int c = 0; c < nc; c++)
          for (int d = 0; d < k; d++)
            g.ck(near(out[c * k + d], c, d), "step ", s, " DOF ", d, " of cell ", c, " is ", out[c * k + d], ", expected ", dof[c][d]);
    } else if (op == 5 && use_qpm) {
      if (g.boolean() || !qv.count(k)) {
        std::vector<REAL> in2;
        qv[k].assign(nc, std::vector<REAL>(3, 0.0));
        qm[k] = qv[k];
        for (int c = 0; c < nc; c++)
          for (int d = 0; d < k; d++)
            in2.push_back(qv[k][c][d] = rval(c, s, 10 + d, w.salt));
        qpm->set(k, in2);
      } else {
        std::vector<REAL> out;
        qpm->get(k, out);
        g.ck((int)out.size() == nc * k, "size of the point values");
        if ((int)out.size() == nc * k)
          for (int c = 0; c < nc; c++)
            for (int d = 0; d < k; d++)
              g.ck(std::fabs(out[c * k + d] - qv[k][c][d]) <= 1e-11 * qm[k][c][d], "step ", s, " point of cell ", c, " component ", d, " is ", out[c * k + d], ", expected ", qv[k][c][d]);
      }
    }
    if (known && g.chance(1, 3)) {
      auto vtk = top ? top->get_vtk_data() : pe->get_vtk_data();
      if (g.ck((int)vtk.size() == nc, "number of VTK cells"))
        for (int c = 0; c < nc; c++)
          g.ck(near(vtk[c].cell_data["value"], c, 0), "step ", s, " VTK value of cell ", c, " is ", vtk[c].cell_data["value"], ", expected ", dof[c][0]);
    }
    g.sync();
  }
  g.mark(w.npart >= 2 && w.m.c.size() >= 2);
  if (qpm)
    qpm->free();
  w.A->free();
  g.sync();
}

void bary(Gen &g) {
  g.label("barycentric");
  World w;
  if (!w.make(g, 80))
    return;
  w.particles();
  const int nc = w.m.mesh->get_cell_count();
  auto &dmh = w.m.mesh->dmh;
  ExternalCommon::QuadraturePointMapperSharedPtr qpm;
  const bool at_vertices = g.chance(2, 3);
  const double shrink = at_vertices ? 1.0 : g.real(0.4, 0.9);
  std::vector<std::vector<Pt>> qp(nc);
  for (int c = 0; c < nc; c++) {
    std::vector<std::vector<REAL>> vv;
    dmh->get_cell_vertices(c, vv);
    Pt a{0, 0};
    for (auto &v : vv)
      for (int d = 0; d < 2; d++)
        a[d] += v[d] / (double)vv.size();
    for (auto &v : vv)
      qp[c].push_back({a[0] + shrink * (v[0] - a[0]), a[1] + shrink * (v[1] - a[1])});
  }
  if (at_vertices) {
    qpm = make_quadrature_point_mapper_vertex(target(), w.domain);
  } else {
    qpm = std::make_shared<ExternalCommon::QuadraturePointMapper>(target(), w.domain);
    qpm->add_points_initialise();
    for (auto &c : qp)
      for (auto &p : c)
        qpm->add_point(p.data());
    qpm->add_points_finalise();
  }
  std::shared_ptr<DMPlexProjectEvaluate> top;
  std::shared_ptr<DMPlexProjectEvaluateBarycentric> pe;
  if (g.boolean())
    top = std::make_shared<DMPlexProjectEvaluate>(qpm, "Barycentric", 1);
  else
    pe = std::make_shared<DMPlexProjectEvaluateBarycentric>(qpm, "Barycentric", 1);
  auto rows = snapshot(g, w.A);
  double ext = 0;
  for (auto &v : w.m.v)
    ext = std::max({ext, std::fabs(v[0] - w.m.v[0][0]), std::fabs(v[1] - w.m.v[0][1])});
  const double rel = 1e-8 * (1.0 + 1e-6 * w.m.big / ext);
  const int steps = (int)g.size(1, 5);
  for (int s = 0; s < steps && !g.failed; s++) {
    const int k = 1 + (int)g.draw(3);
    const bool use_sub = g.chance(1, 3);
    const int mod = 1 + (int)g.draw(4), rem = (int)g.draw(mod + 1);
    auto in = [&](INT id) { return !use_sub || id % mod == rem; };
    double co[3][3];
    for (auto &r : co)
      for (auto &x : r)
        x = g.real(-2, 2);
    if (g.boolean()) { // evaluate a linear function
      const double x0 = w.m.v[0][0], y0 = w.m.v[0][1], sc = 1.0 / ext;
      auto f = [&](int d) {
        const double a = co[d][0], b = co[d][1] * sc, c = co[d][2] * sc;
        return [=](const REAL x, const REAL y) { return a + b * (x - x0) + c * (y - y0); };
      };
      for (int d = 0; d < k; d++)
        ExternalCommon::interpolate<2>(qpm, k, d, f(d));
      w.reset_outputs();
      if (use_sub) {
        if (top)
          top->evaluate(w.sub(mod, rem), sym("E", k));
        else
          pe->evaluate(w.sub(mod, rem), sym("E", k));
      } else {
        if (top)
          top->evaluate(w.A, sym("E", k));
        else
          pe->evaluate(w.A, sym("E", k));
      }
      auto now = snapshot(g, w.A);
      g.ck(now.size() == rows.size(), "evaluate changed the number of particles");
      for (auto &r : now) {
        const INT id = r.i["ID"][0];
        for (int q = 1; q <= 3; q++)
          for (int d = 0; d < q; d++) {
            const REAL v = r.r["E" + std::to_string(q)][d];
            const REAL want = f(d)(w.where[id][0], w.where[id][1]);
            if (q == k && in(id))
              g.ck(std::fabs(v - want) <= 8 * rel, "step ", s, " particle ", id, " at (", w.where[id][0], ",", w.where[id][1], ") component ", d, " of ", k, ": ", v, ", the linear function is ", want);
            else
              g.ck(v == -77.25, "step ", s, " evaluate changed a value it does not write");
          }
      }
      g.label("linear");
    } else { // project
      if (use_sub) {
        if (top)
          top->project(w.sub(mod, rem), sym("W", k));
        else
          pe->project(w.sub(mod, rem), sym("W", k));
      } else {
        if (top)
          top->project(w.A, sym("W", k));
        else
          pe->project(w.A, sym("W", k));
      }
      std::vector<REAL> out;
      qpm->get(k, out);
      std::size_t total = 0;
      for (auto &q : qp)
        total += q.size();
      if (!g.ck(out.size() == total * k, "size of the point values"))
        break;
      // The points are in the order in which they were added: cell by cell.
      // Within a cell the vertex points are in an arbitrary order.
      std::vector<std::vector<double>> sum(nc, std::vector<double>(9, 0.0)); // per component weight, moments
      for (auto &r : rows) {
        const INT id = r.i["ID"][0];
        if (in(id))
          for (int d = 0; d < k; d++) {
            const double x = w.weight(id, k, d);
            sum[r.cell][3 * d] += x;
            sum[r.cell][3 * d + 1] += x * (w.where[id][0] - qp[r.cell][0][0]) / ext;
            sum[r.cell][3 * d + 2] += x * (w.where[id][1] - qp[r.cell][0][1]) / ext;
          }
      }
      auto vtk = top ? top->get_vtk_data() : pe->get_vtk_data();
      std::size_t at = 0;
      for (int c = 0; c < nc && !g.failed; c++) {
        const int e = w.m.element[rank()][c];
        const double vol = w.m.area(e), nv = (double)qp[c].size();
        for (int d = 0; d < k; d++) {
          double S = 0;
          bool neg = false;
          for (std::size_t i = 0; i < qp[c].size(); i++) {
            const double v = out[(at + i) * k + d] * vol / nv;
            S += v;
            neg = neg || v < -rel * (1.0 + sum[c][3 * d]);
          }
          g.ck(!neg, "a positive weight gives a negative value at a point of cell ", c);
          // triangles: the points are symmetric around the centroid.
          if (at_vertices || qp[c].size() == 3) {
            g.ck(std::fabs(S - sum[c][3 * d]) <= rel * (1.0 + sum[c][3 * d]), "step ", s, " cell ", c, " component ", d, " holds ", S, ", the particles in it weigh ", sum[c][3 * d]);
          }
        }
        at += qp[c].size();
        // the values at the vertices in their order
        std::vector<std::vector<REAL>> vv;
        dmh->get_cell_vertices(c, vv);
        auto val = vtk[c].point_data["value"];
        if (!g.ck(val.size() == vv.size(), "number of VTK values"))
          break;
        double S = 0, X = 0, Y = 0;
        for (std::size_t i = 0; i < vv.size(); i++) {
          const double v = val[i] * vol / nv;
          S += v;
          X += v * (vv[i][0] - qp[c][0][0]) / ext;
          Y += v * (vv[i][1] - qp[c][0][1]) / ext;
        }
        const double t = rel * (1.0 + sum[c][0]);
        g.ck(std::fabs(S - sum[c][0]) <= t, "VTK values of cell ", c, " hold ", S, ", the particles weigh ", sum[c][0]);
        g.ck(std::fabs(X - sum[c][1]) <= t && std::fabs(Y - sum[c][2]) <= t, "VTK values of cell ", c, " are not centred where the particles are: (", X, ",", Y, "), expected (", sum[c][1], ",", sum[c][2], ")");
        if (at_vertices) {
          // the same set of values at the points
          std::vector<double> p, q;
          for (std::size_t i = 0; i < vv.size(); i++)
            p.push_back(out[(at - vv.size() + i) * k]), q.push_back(val[i]);
          std::sort(p.begin(), p.end());
          std::sort(q.begin(), q.end());
          for (std::size_t i = 0; i < vv.size(); i++)
            g.ck(std::fabs(p[i] - q[i]) * vol <= 8 * t, "the values at the points of cell ", c, " differ from those at its vertices");
        }
      }
      g.label("project");
    }
    g.sync();
  }
  g.mark(w.npart >= 2 && w.m.c.size() >= 2);
  qpm->free();
  w.A->free();
  g.sync();
}

// Sampling of particles inside cells.
void sample(Gen &g) {
  g.label("sample");
  World w;
  if (!w.make(g, 0))
    return;
  const int nc = w.m.mesh->get_cell_count();
  std::mt19937 rng((unsigned)pbt::hash(w.salt, rank()));
  std::vector<std::vector<double>> pos;
  std::vector<int> cells;
  const int kind = (int)g.draw(3);
  std::vector<double> want(nc, 0.0);
  double vol = 0;
  for (std::size_t e = 0; e < w.m.c.size(); e++)
    vol += w.m.area((int)e);
  if (kind == 0) {
    const int n = (int)g.size(0, 8);
    uniform_within_dmplex_cells(w.m.mesh, n, pos, cells, &rng);
    for (auto &x : want)
      x = n;
  } else if (kind == 1) {
    const double density = g.real(0, 4) * (double)w.m.c.size() / vol;
    const int n = uniform_density_within_dmplex_cells(w.m.mesh, density, pos, cells, &rng);
    g.ck(n == (int)cells.size(), "returned count ", n, " for ", cells.size(), " particles");
    for (int c = 0; c < nc; c++)
      want[c] = density * w.m.area(w.m.element[rank()][c]);
  } else {
    const double a = g.real(0, 4) * (double)w.m.c.size() / vol, pw = g.real(0.5, 2);
    const double x0 = w.m.v[0][0], b = g.real(-1, 1) * a / w.m.big;
    std::mt19937 *r = &rng;
    auto f = [=](const REAL x, const REAL y) { return a + b * (x - x0); };
    auto ret = sample_points_for_distribution<2>(target(), w.domain, pw, f, pos, cells, r);
    g.ck(ret[2] == (int)cells.size(), "returned count ", ret[2], " for ", cells.size(), " particles");
    for (int c = 0; c < nc; c++) {
      auto q = w.m.poly(w.m.element[rank()][c]);
      double s = 0;
      for (auto &p : q)
        s += f(p[0], p[1]) / (double)q.size();
      want[c] = std::max(0.0, s * w.m.area(w.m.element[rank()][c])) / pw;
    }
  }
  std::vector<int> cnt(nc, 0);
  if (g.ck(pos.size() == 2 && pos[0].size() == cells.size() && pos[1].size() == cells.size(), "sizes of the samples"))
    for (std::size_t i = 0; i < cells.size(); i++) {
      if (!g.ck(cells[i] >= 0 && cells[i] < nc, "sample in cell ", cells[i]))
        break;
      cnt[cells[i]]++;
      g.ck(w.m.depth(w.m.element[rank()][cells[i]], {pos[0][i], pos[1][i]}) >= -w.m.tol(), "sample ", i, " at (", pos[0][i], ",", pos[1][i], ") is outside of its cell ", cells[i]);
    }
  for (int c = 0; c < nc; c++)
    g.ck(std::fabs(cnt[c] - want[c]) <= 0.5 + 1e-6 * (1.0 + want[c]), cnt[c], " samples in cell ", c, ", expected ", want[c]);
  g.mark(w.m.c.size() >= 2);
  g.sync();
}

void prop(Gen &g) {
  switch (g.weighted({1, 3, 4, 4, 2})) {
  case 0:
    dof_mapper(g);
    break;
  case 1:
    points(g);
    break;
  case 2:
    dg(g);
    break;
  case 3:
    bary(g);
    break;
  default:
    sample(g);
  }
}

} // namespace

PBT_MAIN("C23", prop)
