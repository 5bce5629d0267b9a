// C16: exactly the particles whose straight trajectory leaves the domain are
// reported, in the group of the face they cross first, with that hit.
#include "traj.hpp"
using namespace np;

namespace {

void prop(Gen &g) {
  CartMesh m;
  CartMesh::Opts o;
  o.dyadic = false;
  o.max_dim2 = 6;
  m.gen(g, o);
  set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 2, 16}));
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 4, 16, 256}));
  set_param("NESO_PARTICLES_NPART_CELL_HINT", 0);
  auto domain = std::make_shared<Domain>(m.mesh);
  const int nd = m.ndim;
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd + (int)g.draw(2), true),
                    ParticleProp(Sym<REAL>("S"), nd),
                    ParticleProp(Sym<REAL>("E"), nd),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), 1)};
  HitSpec::add(spec);
  const bool pre_dat = g.chance(1, 4);
  if (pre_dat)
    spec.push(ParticleProp(
        CartesianTrajectoryIntersection::previous_position_sym, nd));
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  auto groups = gen_groups(g, nd);
  const double tol = g.pick<double>({1e-14, 1e-14, 1e-12, 1e-10, 0.0});
  std::string gs;
  for (auto &x : groups)
    gs += std::to_string(x.first) + ":" + np::str(x.second) + " ";
  g.note(m.str(), " groups ", gs, " tolerance ", tol);
  CartesianTrajectoryIntersection cti(target(), m.mesh, groups, tol);
  cti.prepare_particle_group(A);
  struct Guard {
    CartesianTrajectoryIntersection &c;
    ~Guard() { c.free(); }
  } guard{cti};

  std::map<INT, Traj> traj;
  INT next = 1 + (INT)rank() * 1000000;
  const int steps = 1 + (int)g.draw(3);
  for (int st = 0; st < steps && !g.failed; st++) {
    if (st && g.chance(1, 3)) {
      A->clear();
      traj.clear();
    }
    const int kind = (int)g.draw(8); // 7: a mixture
    const int n0 = (int)g.size(0, g.chance(1, 6) ? 400 : 60);
    const bool uneven = g.chance(1, 3); // some ranks without particles
    const uint64_t salt = g.seed32();
    const int n = uneven && pbt::hash(salt, rank()) % 2 ? 0 : n0;
    ParticleSet ps(n, spec);
    for (int i = 0; i < n; i++) {
      const INT id = next++;
      const uint64_t h = pbt::hash(salt, id);
      const int k = kind == 7 ? (int)(pbt::hash(h, 5) % 7) : kind;
      const Traj q = gen_traj(m, k, h, tol);
      traj[id] = q;
      for (int d = 0; d < nd; d++) {
        ps[Sym<REAL>("S")][i][d] = q.a[d];
        ps[Sym<REAL>("E")][i][d] = q.b[d];
        ps[Sym<REAL>("P")][i][d] = -777.0;
      }
      ps[Sym<INT>("ID")][i][0] = id;
      ps[Sym<INT>("CELL_ID")][i][0] = (INT)(h % (uint64_t)m.ncell);
    }
    A->add_particles_local(ps);
    particle_loop(
        A,
        [=](auto P, auto S) {
          for (int d = 0; d < nd; d++)
            P.at(d) = S.at(d);
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("S")))
        ->execute();
    const bool sub = g.chance(1, 2);
    const uint64_t ss = g.seed32();
    const uint64_t num = g.draw(4);
    auto in = [&](INT id) {
      return !sub || pbt::hash(ss, (uint64_t)id) % 3 < num;
    };
    ParticleSubGroupSharedPtr S;
    if (sub)
      S = particle_sub_group(
          A,
          [=](auto ID) { return pbt::hash(ss, (uint64_t)ID.at(0)) % 3 < num; },
          Access::read(Sym<INT>("ID")));
    // The previous positions of a particle outside of the sub group are those
    // of another time; it must not be looked at.
    const bool pre_sub = sub && g.boolean();
    if (pre_sub)
      cti.pre_integration(S);
    else
      cti.pre_integration(A);
    particle_loop(
        A,
        [=](auto P, auto E) {
          for (int d = 0; d < nd; d++)
            P.at(d) = E.at(d);
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("E")))
        ->execute();
    HitSpec::clear(A);
    auto hit = sub ? cti.post_integration(S) : cti.post_integration(A);
    g.note("step ", st, " kind ", kind, " particles ", n,
           sub ? " sub group" : " group");
    for (auto &x : groups)
      if (!g.ck(hit.count(x.first), "no entry for group ", x.first))
        return;
    if (!g.ck(hit.size() == groups.size(), "unexpected groups"))
      return;
    for (auto &x : hit) {
      if (!g.ck(contains_boundary_interaction_data(x.second, nd),
                "group ", x.first, " has no intersection data"))
        return;
      HitSpec::copy(x.second, nd, x.first);
    }
    auto rows = snapshot(g, A);
    if (g.failed)
      return;
    std::size_t seen = 0;
    for (auto &r : rows) {
      const INT id = r.i.at("ID")[0];
      if (!g.ck(traj.count(id), "unknown particle ", id))
        return;
      seen++;
      const Traj &q = traj.at(id);
      const INT hits = r.i.at("HITS")[0];
      bool ok = true;
      for (int d = 0; d < nd; d++)
        ok = ok && r.r.at("P")[d] == q.b[d] && r.r.at("S")[d] == q.a[d] &&
             r.r.at("E")[d] == q.b[d];
      if (!g.ck(ok, "particle ", id, " was changed"))
        return;
      if (!in(id)) {
        if (!g.ck(hits == 0, "particle ", id,
                  " is not in the sub group but was reported"))
          return;
        continue;
      }
      const auto &pp = r.r.at(
          CartesianTrajectoryIntersection::previous_position_sym.name);
      for (int d = 0; d < nd; d++)
        if (!g.ck(pp[d] == q.a[d], "particle ", id, " previous position ", d,
                  " is ", pp[d], ", expected ", q.a[d]))
          return;
      if (!check_hit(g, m, q, tol, groups, id, hits, r.i.at("HITG").data(),
                     r.i.at("HITK")[0], r.r.at("HITP").data(),
                     r.r.at("HITN").data()))
        return;
      if (hits)
        g.mark();
    }
    if (!g.ck(seen == traj.size(), "particles lost"))
      return;
    int all = 0; // the counts of the groups
    for (auto &x : hit)
      all += x.second->get_npart_local();
    int cnt = 0;
    for (auto &r : rows)
      cnt += (int)r.i.at("HITS")[0];
    g.ck(all == cnt, "the groups count ", all, " particles but hold ", cnt);
  }
}
} // namespace
PBT_MAIN("C16", prop)
