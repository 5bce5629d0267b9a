// C18: surface functions collect every contribution once on the face that was
// hit, wherever it is owned, and evaluate to the value held by the owner.
#include "traj.hpp"
using namespace np;

namespace {

struct Func {
  CartesianHMeshFunctionSharedPtr f;
  int group;
  std::vector<double> dofs;           // over all face cells of all ranks
  bool pending{false};                // between initialise and finalise
  std::map<INT, double> sum, absum;   // contributions of this rank
  std::map<INT, double> cnt;
};

void prop(Gen &g) {
  CartMesh m;
  CartMesh::Opts o;
  o.dyadic = false;
  o.max_dim2 = 6;
  m.gen(g, o);
  set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 2, 16}));
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 4, 256}));
  set_param("NESO_PARTICLES_NPART_CELL_HINT", 0);
  auto domain = std::make_shared<Domain>(m.mesh);
  const int nd = m.ndim;
  const Sym<REAL> Q("Q"), QE("QE"), R("R");
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd, true),
                    ParticleProp(Sym<REAL>("S"), nd),
                    ParticleProp(Sym<REAL>("E"), nd),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), 1),
                    ParticleProp(Q, 2),
                    ParticleProp(R, 4)};
  HitSpec::add(spec);
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  auto groups = gen_groups(g, nd);
  std::string gs;
  for (auto &x : groups)
    gs += std::to_string(x.first) + ":" + np::str(x.second) + " ";
  g.note(m.str(), " groups ", gs);
  CartesianTrajectoryIntersection cti(target(), m.mesh, groups);
  cti.prepare_particle_group(A);
  struct Guard {
    CartesianTrajectoryIntersection &c;
    ~Guard() { c.free(); }
  } guard{cti};

  int total = 0;
  for (int f = 0; f < 2 * nd; f++)
    total += face_cell_count(m, f);
  double area = m.h;
  if (nd == 3)
    area *= m.h;
  auto allsum = [&](std::vector<double> v) {
    std::vector<double> r(v.size());
    MPI_Allreduce(v.data(), r.data(), (int)v.size(), MPI_DOUBLE, MPI_SUM,
                  MPI_COMM_WORLD);
    return r;
  };

  std::vector<Func> funcs;
  auto collect = [&](Func &F) { // owned values of all ranks; collective
    std::vector<double> v(total, 0.0);
    auto d = F.f->get_dofs();
    for (std::size_t i = 0; i < d.size() && i < F.f->cells.size(); i++)
      if (F.f->cells[i] >= 0 && F.f->cells[i] < total)
        v[F.f->cells[i]] += d[i];
    return allsum(v);
  };
  for (auto &x : groups) {
    const int nf = 1 + (int)g.draw(2);
    for (int i = 0; i < nf; i++) {
      Func F;
      F.f = cti.create_function(x.first, "DG", 0);
      F.group = x.first;
      std::vector<double> own(total, 0.0);
      for (INT c : F.f->cells)
        if (g.ck(c >= 0 && c < total, "face cell ", c, " does not exist"))
          own[c] += 1;
      own = allsum(own);
      for (int c = 0; c < total; c++) {
        int face, fc[3];
        face_cell(m, c, &face, fc);
        int want = 0;
        for (int y : x.second)
          want += y == face;
        g.ck(own[c] == want, "face cell ", c, " of face ", face, " is owned ",
             own[c], " times in group ", x.first, ", expected ", want);
      }
      auto d = F.f->get_dofs();
      g.ck(d.size() == F.f->cells.size(), "number of dofs ", d.size(), " != ",
           F.f->cells.size());
      for (double v : d)
        g.ck(v == 0, "a new function is not zero");
      F.dofs.assign(total, 0.0);
      funcs.push_back(F);
    }
  }
  g.sync();
  if (funcs.empty())
    return;

  std::map<int, ParticleSubGroupSharedPtr> hit;
  std::map<INT, std::pair<INT, std::array<double, 4>>> rows; // id: face, Q, QE
  std::map<INT, int> row_group;
  INT next = 1 + (INT)rank() * 1000000;
  const int steps = 3 + (int)g.draw(14);
  for (int st = 0; st < steps; st++) {
    int op = st == 0 ? 0 : (int)g.weighted({4, 4, 3, 5, 3, 2, 4});
    Func &F = funcs[g.draw(funcs.size())];
    const uint64_t salt = g.seed32();
    const int comp = (int)g.draw(2);
    const bool eph = g.boolean();
    const bool nulls = g.chance(1, 6); // no sub group on some ranks
    const bool is_null = nulls && pbt::hash(salt, 77, rank()) % 2;
    if (op == 0) { // new particles hit the boundary
      if (g.chance(3, 4)) {
        A->clear();
        rows.clear();
      }
      hit.clear();
      const int kind = (int)g.draw(8); // 7: a mixture
      const int n0 = (int)g.size(0, g.chance(1, 6) ? 300 : 40);
      const bool uneven = g.chance(1, 3);
      const int n = uneven && pbt::hash(salt, rank()) % 2 ? 0 : n0;
      ParticleSet ps(n, spec);
      for (int i = 0; i < n; i++) {
        const INT id = next++;
        const uint64_t h = pbt::hash(salt, id);
        const int k = kind == 7 ? (int)(pbt::hash(h, 5) % 7) : kind;
        const Traj q = gen_traj(m, k, h, 1e-14);
        for (int d = 0; d < nd; d++) {
          ps[Sym<REAL>("S")][i][d] = q.a[d];
          ps[Sym<REAL>("E")][i][d] = q.b[d];
          ps[Sym<REAL>("P")][i][d] = q.a[d];
        }
        for (int c = 0; c < 2; c++) {
          const uint64_t w = pbt::hash(h, 91, c);
          ps[Q][i][c] = w % 5 == 0 ? (double)(int)(w / 5 % 9) - 4.0
                                   : (double)(w >> 11) * 0x1p-53;
        }
        ps[Sym<INT>("ID")][i][0] = id;
        ps[Sym<INT>("CELL_ID")][i][0] = (INT)(h % (uint64_t)m.ncell);
      }
      A->add_particles_local(ps);
      particle_loop(
          A,
          [=](auto P, auto S) {
            for (int d = 0; d < nd; d++)
              P.at(d) = S.at(d);
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("S")))
          ->execute();
      cti.pre_integration(A);
      particle_loop(
          A,
          [=](auto P, auto E) {
            for (int d = 0; d < nd; d++)
              P.at(d) = E.at(d);
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("E")))
          ->execute();
      HitSpec::clear(A);
      hit = cti.post_integration(A);
      for (auto &x : hit) {
        HitSpec::copy(x.second, nd, x.first);
        x.second->add_ephemeral_dat(QE, 2);
        particle_loop(
            x.second,
            [=](auto E, auto D) {
              for (int c = 0; c < 2; c++)
                E.at_ephemeral(c) = -2.0 * D.at(c);
            },
            Access::write(QE), Access::read(Q))
            ->execute();
      }
      rows.clear();
      row_group.clear();
      int nh = 0;
      for (auto &r : snapshot(g, A)) {
        if (!r.i.at("HITS")[0])
          continue;
        const INT id = r.i.at("ID")[0];
        const auto &q = r.r.at("Q");
        rows[id] = {r.i.at("HITG")[1],
                    {q[0], q[1], -2.0 * q[0], -2.0 * q[1]}};
        row_group[id] = (int)r.i.at("HITK")[0];
        g.ck(r.i.at("HITG")[1] >= 0 && r.i.at("HITG")[1] < total,
             "hit face cell out of range");
        nh++;
      }
      g.note("step ", st, " kind ", kind, " particles ", n, " hits ", nh);
      g.sync();
    } else if (op <= 2 || op == 3) { // 1 project, 2 initialise, 3 contribute
      if (op == 1 && F.pending)
        op = 3;
      if (op == 3 && !F.pending)
        op = 1;
      if (op == 1 || op == 2) {
        F.pending = true;
        F.sum.clear();
        F.absum.clear();
        F.cnt.clear();
      }
      const Sym<REAL> sym = eph ? QE : Q;
      ParticleSubGroupSharedPtr S = is_null ? nullptr : hit.at(F.group);
      if (op != 2 && !is_null)
        for (auto &r : rows)
          if (row_group.at(r.first) == F.group) {
            const double w = r.second.second[(eph ? 2 : 0) + comp];
            F.sum[r.second.first] += w;
            F.absum[r.second.first] += std::abs(w);
            F.cnt[r.second.first] += 1;
          }
      const int fi = (int)(&F - funcs.data());
      if (op == 1) {
        g.note("step ", st, " project ", sym.name, "[", comp, "] onto function ",
               fi, " group ", F.group, nulls ? " some ranks null" : "");
        cti.function_project(S, sym, comp, eph, F.f);
      } else if (op == 2) {
        g.note("step ", st, " initialise function ", fi, " group ", F.group);
        cti.function_project_initialise(F.f);
      } else {
        g.note("step ", st, " contribute ", sym.name, "[", comp,
               "] to function ", fi, " group ", F.group,
               nulls ? " some ranks null" : "");
        cti.function_project_contribute(S, sym, comp, eph, F.f);
      }
      if (op == 1)
        op = 100; // check
    } else if (op == 4) { // finalise
      if (!F.pending)
        continue;
      g.note("step ", st, " finalise function ", (int)(&F - funcs.data()));
      cti.function_project_finalise(F.f);
      op = 100;
    } else if (op == 5) { // assign
      if (F.pending)
        continue;
      const int how = (int)g.draw(3);
      if (how == 0) {
        const double v = g.pick<double>({1.0, 0.0, -2.5, 1e30});
        F.f->fill(v);
        for (double x : F.f->get_dofs())
          g.ck(x == v, "filled with ", v, " but holds ", x);
        g.note("step ", st, " fill function ", (int)(&F - funcs.data()));
      } else {
        std::vector<double> v(F.f->cells.size());
        for (std::size_t i = 0; i < v.size(); i++)
          v[i] = 1.0 + (double)(pbt::hash(salt, F.f->cells[i]) % 1000000);
        F.f->set_dofs(v);
        g.ck(F.f->get_dofs() == v, "the assigned values were not kept");
        g.note("step ", st, " set dofs of function ",
               (int)(&F - funcs.data()));
      }
      F.dofs = collect(F);
      g.sync();
    } else { // evaluate
      if (F.pending)
        continue;
      g.note("step ", st, " evaluate function ", (int)(&F - funcs.data()),
             " group ", F.group, eph ? " into QE[" : " into R[", comp, "]",
             nulls ? " some ranks null" : "");
      ParticleSubGroupSharedPtr S = is_null ? nullptr : hit.at(F.group);
      particle_loop(
          A,
          [=](auto X) {
            for (int c = 0; c < 4; c++)
              X.at(c) = -7777.0;
          },
          Access::write(R))
          ->execute();
      cti.function_evaluate(S, eph ? QE : R, comp, eph, F.f);
      for (auto &x : hit)
        particle_loop(
            x.second,
            [=](auto X, auto E) {
              for (int c = 0; c < 2; c++)
                X.at(2 + c) = E.at_ephemeral(c);
            },
            Access::write(R), Access::read(QE))
            ->execute();
      for (auto &r : snapshot(g, A)) {
        const INT id = r.i.at("ID")[0];
        const auto &x = r.r.at("R");
        double want[4] = {-7777.0, -7777.0, -7777.0, -7777.0};
        auto it = rows.find(id);
        if (it != rows.end()) {
          want[2] = it->second.second[2];
          want[3] = it->second.second[3];
          if (!is_null && row_group.at(id) == F.group) {
            want[(eph ? 2 : 0) + comp] = F.dofs[it->second.first];
            g.mark();
          }
        }
        for (int c = 0; c < 4; c++)
          g.ck(x[c] == want[c], "particle ", id, " hit face cell ",
               it == rows.end() ? (INT)-1 : it->second.first, ": value ", c,
               " is ", x[c], ", expected ", want[c]);
        if (eph && it != rows.end()) // the ephemeral data was overwritten
          for (int c = 0; c < 2; c++)
            it->second.second[2 + c] = x[2 + c];
      }
      g.sync();
    }
    if (op == 100) {
      F.pending = false;
      std::vector<double> s(total, 0.0), a(total, 0.0), c(total, 0.0);
      for (auto &x : F.sum)
        s[x.first] = x.second;
      for (auto &x : F.absum)
        a[x.first] = x.second;
      for (auto &x : F.cnt)
        c[x.first] = x.second;
      s = allsum(s);
      a = allsum(a);
      c = allsum(c);
      F.dofs = collect(F);
      double got_total = 0, want_total = 0, abs_total = 0;
      for (int i = 0; i < total; i++) {
        const double tol = 4 * EPS * (c[i] + 8) * a[i] / area;
        g.ck(std::abs(F.dofs[i] - s[i] / area) <= tol, "function ",
             (int)(&F - funcs.data()), " on face cell ", i, " is ", F.dofs[i],
             ", expected ", s[i] / area, " from ", c[i], " contributions");
        got_total += F.dofs[i] * area;
        want_total += s[i];
        abs_total += a[i];
      }
      g.ck(std::abs(got_total - want_total) <= 1e-12 * (abs_total + 0.0),
           "the integral is ", got_total, " but the weights sum to ",
           want_total);
      if (abs_total > 0)
        g.mark();
      g.sync();
    }
  }
}
} // namespace
PBT_MAIN("C18", prop)
