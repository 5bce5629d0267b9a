// C17: reflection is specular and in place, truncation stops at the hit, both
// account for the used time, and nobody else is touched.
#include "traj.hpp"
using namespace np;

namespace {

const std::string PREV =
    CartesianTrajectoryIntersection::previous_position_sym.name;

std::map<INT, Row> by_id(const std::vector<Row> &rows) {
  std::map<INT, Row> m;
  for (auto &r : rows)
    m[r.i.at("ID")[0]] = r;
  return m;
}
std::string vec(const double *x, int nd) {
  std::ostringstream s;
  s.precision(17);
  s << "(";
  for (int d = 0; d < nd; d++)
    s << (d ? "," : "") << x[d];
  s << ")";
  return s.str();
}

// One particle before and after. action: 0 none, 1 truncate, 2 reflect.
bool check_step(Gen &g, int nd, int action, double reset, const Row &r0,
                const Row &r1, const double *X, const double *N, INT id,
                bool inside, const CartMesh *m, double tol) {
  std::ostringstream s;
  const auto &a = r0.r.at(PREV), &b = r0.r.at("P"), &v = r0.r.at("V"),
             &t = r0.r.at("TSP");
  const auto &p = r1.r.at("P"), &w = r1.r.at("V"), &u = r1.r.at("TSP");
  s.precision(17);
  s << (action == 2 ? "reflected" : action ? "truncated" : "other")
    << " particle " << id << " from " << vec(a.data(), nd) << " to "
    << vec(b.data(), nd) << " hit " << vec(X, nd) << ": ";
  for (auto &x : r0.r) {
    if (action && (x.first == "P" || x.first == "TSP"))
      continue;
    if (action == 2 && x.first == "V")
      continue;
    if (!g.ck(same(x.second, r1.r.at(x.first)), s.str(), "property ", x.first,
              " changed from ", np::str(x.second), " to ",
              np::str(r1.r.at(x.first))))
      return false;
  }
  for (auto &x : r0.i)
    if (!g.ck(same(x.second, r1.i.at(x.first)), s.str(), "property ", x.first,
              " changed"))
      return false;
  if (!action)
    return true;
  // components beyond those documented
  for (std::size_t k = nd; k < p.size(); k++)
    if (!g.ck(p[k] == b[k], s.str(), "position component ", k, " changed"))
      return false;
  for (std::size_t k = 2; k < u.size(); k++)
    if (!g.ck(u[k] == t[k], s.str(), "time component ", k, " changed"))
      return false;
  double mx = 0;
  for (int d = 0; d < nd; d++)
    mx = std::max({mx, std::fabs(a[d]), std::fabs(X[d])});
  const double rnd = 8 * EPS * mx;
  // position: towards the previous one from the hit point, by reset
  long double ax = 0, px = 0, ap = 0, full = 0;
  for (int d = 0; d < nd; d++) {
    ax += ((long double)a[d] - X[d]) * ((long double)a[d] - X[d]);
    px += ((long double)p[d] - X[d]) * ((long double)p[d] - X[d]);
    ap += ((long double)p[d] - a[d]) * ((long double)p[d] - a[d]);
    full += ((long double)b[d] - a[d]) * ((long double)b[d] - a[d]);
  }
  ax = sqrtl(ax), px = sqrtl(px), ap = sqrtl(ap), full = sqrtl(full);
  if (!g.ck(px <= reset * (1 + 1e-9) + rnd, s.str(), "is now at ",
            vec(p.data(), nd), ", ", (double)px, " from the hit point, reset ",
            reset))
    return false;
  if (ax > 1.001L * reset + 4 * rnd &&
      !g.ck(fabsl(px - reset) <= 1e-6L * reset + rnd, s.str(), "is now at ",
            vec(p.data(), nd), ", ", (double)px, " from the hit point, reset ",
            reset))
    return false;
  if (!g.ck(px + ap <= ax + 4 * rnd, s.str(), "is now at ", vec(p.data(), nd),
            ", not between the previous position and the hit point"))
    return false;
  if (inside)
    for (int d = 0; d < nd; d++)
      if (!g.ck(p[d] >= -tol - rnd && p[d] <= m->L[d] + tol + rnd, s.str(),
                "is now at ", vec(p.data(), nd), ", outside of the domain"))
        return false;
  // time
  const long double prop =
      std::min(1.0L, full > 0 ? ax / full : (long double)1.0L);
  const long double want1 = t[1] * prop, want0 = t[0] - t[1] + want1;
  // the rounding of the subtractions relative to the step
  const long double te =
      32 * EPS * (std::fabs(t[0]) + std::fabs(t[1]));
  if (!g.ck(fabsl(u[1] - want1) <= te && fabsl(u[0] - want0) <= te, s.str(),
            "time ", vec(t.data(), 2), " became ", vec(u.data(), 2),
            ", expected ", (double)want0, ",", (double)want1))
    return false;
  if (action != 2)
    return true;
  long double nv = 0, sv = 0, sw = 0, mv = 0;
  for (int d = 0; d < nd; d++) {
    nv += (long double)N[d] * v[d];
    sv += (long double)v[d] * v[d];
    sw += (long double)w[d] * w[d];
    mv = std::max(mv, (long double)std::fabs(v[d]));
  }
  for (int d = 0; d < nd; d++) {
    const long double want = v[d] - 2 * nv * N[d];
    if (!g.ck(fabsl(w[d] - want) <= 16 * EPS * mv, s.str(), "velocity ",
              vec(v.data(), nd), " became ", vec(w.data(), nd), ", normal ",
              vec(N, nd)))
      return false;
  }
  for (std::size_t k = nd; k < w.size(); k++)
    if (!g.ck(w[k] == v[k], s.str(), "velocity component ", k, " changed"))
      return false;
  return g.ck(fabsl(sqrtl(sv) - sqrtl(sw)) <= 32 * EPS * mv, s.str(),
              "speed changed");
}

ParticleSpec make_spec(Gen &g, int nd) {
  ParticleSpec spec{
      ParticleProp(Sym<REAL>("P"), nd + (int)g.draw(2), true),
      ParticleProp(Sym<REAL>("V"), nd + (int)g.draw(2)),
      ParticleProp(Sym<REAL>("TSP"), 2 + (int)g.draw(2)),
      ParticleProp(Sym<REAL>("Q"), 2),
      ParticleProp(CartesianTrajectoryIntersection::previous_position_sym, nd),
      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
      ParticleProp(Sym<INT>("ID"), 1)};
  HitSpec::add(spec);
  return spec;
}

void common(Gen &g) {
  set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 2, 16}));
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 4, 16, 256}));
  set_param("NESO_PARTICLES_NPART_CELL_HINT", 0);
}

// Intersection data given by the harness: any unit normal, 1D to 3D.
void synthetic(Gen &g) {
  CartMesh m;
  m.gen(g, CartMesh::Opts{});
  common(g);
  auto domain = std::make_shared<Domain>(m.mesh);
  const int nd = 1 + (int)g.draw(3);
  auto spec = make_spec(g, nd);
  // the position property needs the dimension of the mesh only for moves
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  const double reset = g.pick<double>({1e-10, 1e-6, 1e-3, EPS, 1e-13});
  const int n = (int)g.size(0, g.chance(1, 5) ? 300 : 40);
  const uint64_t salt = g.seed32();
  const int hk = (int)g.draw(4), vk = (int)g.draw(3);
  ParticleSet ps(n, spec);
  for (int i = 0; i < n; i++) {
    const INT id = 1 + i + (INT)rank() * 1000000;
    int c = 0;
    auto H = [&]() { return pbt::hash(salt, id, c++); };
    auto U = [&]() { return ((double)(H() >> 11)) * 0x1p-53; };
    double a[3], b[3], nn = 0, N[3], s = U();
    if (hk == 1) // hits next to the start: the reset may pass it
      s = std::exp2(-40.0 * U());
    if (hk == 2)
      s = 1.0;
    if (hk == 3)
      s = H() % 2 ? 0.0 : 1.0 - std::exp2(-50 * U());
    for (int d = 0; d < nd; d++) {
      a[d] = (2 * U() - 1) * 4;
      b[d] = a[d] + (2 * U() - 1) * std::exp2(8 * U() - 4);
      N[d] = H() % 3 ? 2 * U() - 1 : 0.0;
      if (nd == 1)
        N[d] = H() % 2 ? 1.0 : -1.0;
      nn += N[d] * N[d];
    }
    if (nn < 1e-3) {
      N[0] = 1, nn = 1;
      for (int d = 1; d < nd; d++)
        N[d] = 0;
    }
    double sp = 0;
    for (int d = 0; d < nd; d++)
      sp += (b[d] - a[d]) * (b[d] - a[d]);
    if (sp < 1e-4)
      b[0] = a[0] + 1;
    for (int d = 0; d < nd; d++) {
      ps[Sym<REAL>(PREV)][i][d] = a[d];
      ps[Sym<REAL>("P")][i][d] = b[d];
      ps[Sym<REAL>("HITP")][i][d] = a[d] + s * (b[d] - a[d]);
      ps[Sym<REAL>("HITN")][i][d] = N[d] / std::sqrt(nn);
    }
    auto pv = ps[Sym<REAL>("V")];
    for (int d = 0; d < A->get_dat(Sym<REAL>("V"))->ncomp; d++)
      pv[i][d] = vk == 0 ? (d < nd ? b[d] - a[d] : 9.0)
                 : vk == 1 ? (2 * U() - 1) * std::exp2(40 * U() - 20)
                           : (H() % 2 ? 0.0 : U());
    const double t1 = U() * (H() % 2 ? 1.0 : 1e-6);
    ps[Sym<REAL>("TSP")][i][0] = H() % 2 ? t1 : t1 + U();
    ps[Sym<REAL>("TSP")][i][1] = t1;
    ps[Sym<REAL>("Q")][i][0] = rval(id, 1, 0);
    ps[Sym<INT>("ID")][i][0] = id;
    ps[Sym<INT>("CELL_ID")][i][0] = (INT)(H() % (uint64_t)m.ncell);
  }
  A->add_particles_local(ps);
  const uint64_t ss = g.seed32(), num = g.draw(4);
  auto in = [=](INT id) { return pbt::hash(ss, (uint64_t)id) % 3 < num; };
  auto S = static_particle_sub_group(
      A,
      [=](auto ID) { return pbt::hash(ss, (uint64_t)ID.at(0)) % 3 < num; },
      Access::read(Sym<INT>("ID")));
  add_boundary_interaction_ephemeral_dats(S, nd);
  particle_loop(
      S,
      [=](auto P, auto N, auto IP, auto IN) {
        for (int d = 0; d < nd; d++) {
          IP.at_ephemeral(d) = P.at(d);
          IN.at_ephemeral(d) = N.at(d);
        }
      },
      Access::read(Sym<REAL>("HITP")), Access::read(Sym<REAL>("HITN")),
      Access::write(BoundaryInteractionSpecification::intersection_point),
      Access::write(BoundaryInteractionSpecification::intersection_normal))
      ->execute();
  auto before = by_id(snapshot(g, A));
  const int action = 1 + (int)g.draw(2);
  g.note("synthetic ", nd, "D particles ", n, " hits ", hk, " reset ", reset,
         action == 2 ? " reflection" : " truncation", " num ", num);
  if (action == 2)
    BoundaryReflection(nd, reset)
        .execute(S, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"),
                 Sym<REAL>(PREV));
  else
    BoundaryTruncation(nd, reset)
        .execute(S, Sym<REAL>("P"), Sym<REAL>("TSP"), Sym<REAL>(PREV));
  auto after = by_id(snapshot(g, A));
  if (!g.ck(before.size() == after.size() && (int)after.size() == n,
            "particles lost"))
    return;
  for (auto &q : before) {
    if (!g.ck(after.count(q.first), "particle ", q.first, " lost"))
      return;
    const bool hit = in(q.first);
    if (!check_step(g, nd, hit ? action : 0, reset, q.second,
                    after.at(q.first), q.second.r.at("HITP").data(),
                    q.second.r.at("HITN").data(), q.first, false, nullptr, 0))
      return;
    if (hit)
      g.mark();
  }
}

// Folds a coordinate into the box; returns the number of wall crossings.
long double fold(long double y, long double L, long long *crossings) {
  const long double k = floorl(y / L);
  *crossings = (long long)fabsl(k);
  long double r = y - k * L;
  return ((long long)k & 1) ? L - r : r;
}

void advect(Gen &g) {
  CartMesh m;
  CartMesh::Opts o;
  o.dyadic = false;
  o.max_dim2 = 6;
  m.gen(g, o);
  common(g);
  auto domain = std::make_shared<Domain>(m.mesh);
  const int nd = m.ndim;
  auto spec = make_spec(g, nd);
  spec.push(ParticleProp(Sym<REAL>("P0"), nd));
  spec.push(ParticleProp(Sym<REAL>("V0"), nd));
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  const bool all_reflect = g.chance(2, 3);
  auto groups = gen_groups(g, nd, all_reflect);
  std::map<int, int> action;
  for (auto &x : groups)
    action[x.first] = all_reflect ? 2 : (int)g.draw(3);
  const double tol = g.pick<double>({1e-14, 1e-12, 1e-13});
  const double reset = g.pick<double>({1e-10, 1e-10, 1e-8, 1e-11});
  const double dt = g.pick<double>({1.0, 0.25, 1e-3});
  const double far = g.pick<double>({0.5, 2.0, 6.0});
  std::string gs;
  for (auto &x : groups)
    gs += std::to_string(x.first) + ":" + np::str(x.second) + "->" +
          std::to_string(action[x.first]) + " ";
  g.note(m.str(), " groups ", gs, " tol ", tol, " reset ", reset, " dt ", dt);
  CartesianTrajectoryIntersection cti(target(), m.mesh, groups, tol);
  struct Guard {
    CartesianTrajectoryIntersection &c;
    ~Guard() { c.free(); }
  } guard{cti};
  cti.prepare_particle_group(A);
  BoundaryReflection refl(nd, reset);
  BoundaryTruncation trunc(nd, reset);

  const int n = (int)g.size(0, g.chance(1, 6) ? 300 : 40);
  const uint64_t salt = g.seed32();
  const int kind = (int)g.draw(5);
  ParticleSet ps(n, spec);
  std::set<INT> exact; // the unfolded path stays away from edges
  for (int i = 0; i < n; i++) {
    const INT id = 1 + i + (INT)rank() * 1000000;
    int c = 0;
    auto H = [&]() { return pbt::hash(salt, id, c++); };
    auto U = [&]() { return ((double)(H() >> 11)) * 0x1p-53; };
    double a[3], v[3];
    for (int d = 0; d < nd; d++) {
      a[d] = (0.01 + 0.98 * U()) * m.L[d];
      if (kind == 3) // symmetric starts: corner hits
        a[d] = 0.5 * m.L[d];
      v[d] = (2 * U() - 1) * far * m.L[d] / dt;
    }
    if (kind == 1) { // axis aligned
      const int k = (int)(H() % nd);
      for (int d = 0; d < nd; d++)
        if (d != k)
          v[d] = 0;
    }
    if (kind == 2) // grazing
      v[H() % nd] *= 1e-4;
    if (kind == 3)
      for (int d = 0; d < nd; d++)
        v[d] = (H() % 2 ? 1 : -1) * m.L[d] * far / dt;
    if (kind == 4 && H() % 2) // at rest
      for (int d = 0; d < nd; d++)
        v[d] = 0;
    for (int d = 0; d < nd; d++) {
      ps[Sym<REAL>("P")][i][d] = a[d];
      ps[Sym<REAL>("P0")][i][d] = a[d];
      ps[Sym<REAL>("V")][i][d] = v[d];
      ps[Sym<REAL>("V0")][i][d] = v[d];
    }
    for (int d = nd; d < A->get_dat(Sym<REAL>("V"))->ncomp; d++)
      ps[Sym<REAL>("V")][i][d] = rval(id, 5, d);
    ps[Sym<REAL>("Q")][i][0] = rval(id, 1, 0);
    ps[Sym<INT>("ID")][i][0] = id;
    ps[Sym<INT>("CELL_ID")][i][0] = (INT)(H() % (uint64_t)m.ncell);
  }
  A->add_particles_local(ps);
  const int steps = all_reflect ? 1 + (int)g.draw(2) : 1;
  g.note("advects ", n, " particles kind ", kind, " far ", far, " steps ",
         steps);
  // Particles with TSP < 1 have not finished the step. Truncated and escaped
  // ones are given up after the hit.
  const int maxit = 4 + 3 * (int)std::ceil(far + 1) * nd;
  std::map<INT, int> bounces, nhits;
  for (int st = 0; st < steps && !g.failed; st++) {
    particle_loop(
        A,
        [=](auto T) {
          T.at(0) = 0;
          T.at(1) = 0;
        },
        Access::write(Sym<REAL>("TSP")))
        ->execute();
    std::set<INT> done;
    bool finished = false;
    for (int it = 0; it < maxit && !g.failed; it++) {
      auto S = static_particle_sub_group(
          A, [=](auto T) { return T.at(0) < 1.0; },
          Access::read(Sym<REAL>("TSP")));
      int left = S->get_npart_local(), all = 0;
      MPI_Allreduce(&left, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      if (!all) {
        finished = true;
        break;
      }
      auto start = by_id(snapshot(g, A));
      cti.pre_integration(S);
      particle_loop(
          S,
          [=](auto P, auto V, auto T) {
            const REAL part = 1.0 - T.at(0);
            for (int d = 0; d < nd; d++)
              P.at(d) += dt * part * V.at(d);
            T.at(0) = 1.0;
            T.at(1) = part;
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("V")),
          Access::write(Sym<REAL>("TSP")))
          ->execute();
      HitSpec::clear(A);
      auto hit = cti.post_integration(S);
      for (auto &x : hit)
        HitSpec::copy(x.second, nd, x.first);
      auto before = by_id(snapshot(g, A));
      for (auto &x : hit) {
        if (action[x.first] == 2)
          refl.execute(x.second, Sym<REAL>("P"), Sym<REAL>("V"),
                       Sym<REAL>("TSP"), Sym<REAL>(PREV));
        else if (action[x.first] == 1)
          trunc.execute(x.second, Sym<REAL>("P"), Sym<REAL>("TSP"),
                        Sym<REAL>(PREV));
      }
      auto after = by_id(snapshot(g, A));
      if (!g.ck(before.size() == after.size() && (int)after.size() == n,
                "particles lost"))
        return;
      for (auto &q : before) {
        const INT id = q.first;
        auto &r = q.second;
        const int hits = (int)r.i.at("HITS")[0];
        if (start.at(id).r.at("TSP")[0] < 1.0) {
          Traj tr;
          for (int d = 0; d < nd; d++)
            tr.a[d] = r.r.at(PREV)[d], tr.b[d] = r.r.at("P")[d];
          if (!check_hit(g, m, tr, tol, groups, id, hits,
                         r.i.at("HITG").data(), r.i.at("HITK")[0],
                         r.r.at("HITP").data(), r.r.at("HITN").data()))
            return;
        } else if (!g.ck(hits == 0, "particle ", id,
                         " was not moved but reported"))
          return;
        const int act = hits ? action[(int)r.i.at("HITK")[0]] : 0;
        if (!check_step(g, nd, act, reset, r, after.at(id),
                        r.r.at("HITP").data(), r.r.at("HITN").data(), id, act,
                        &m, tol))
          return;
        if (act)
          g.mark();
        if (act == 2)
          bounces[id]++;
      }
      if (!all_reflect) { // one pass, then do not move the others on
        finished = true;
        break;
      }
    }
    if (g.failed)
      return;
    if (!g.ck(finished, "the step was not complete after ", maxit,
              " reflections"))
      return;
    if (all_reflect)
      for (auto &q : by_id(snapshot(g, A))) {
        const auto &p0 = q.second.r.at("P0"), &v0 = q.second.r.at("V0");
        const auto &p = q.second.r.at("P"), &v = q.second.r.at("V");
        const int nb = bounces[q.first];
        const double T = dt * (st + 1);
        for (int d = 0; d < nd; d++) {
          long long k = 0;
          const long double y = p0[d] + (long double)T * v0[d];
          const long double f = fold(y, m.L[d], &k);
          const double slack =
              (nb + 1) * (2 * reset + 2 * tol) +
              64 * EPS * (nb + 1) * (m.L[d] + std::fabs(T * v0[d]));
          std::ostringstream s;
          s.precision(17);
          s << "particle " << q.first << " from " << vec(p0.data(), nd)
            << " with velocity " << vec(v0.data(), nd) << " after time " << T
            << " and " << nb << " reflections is at " << vec(p.data(), nd)
            << ", dimension " << d << ": expected " << (double)f;
          if (!g.ck(fabsl(f - p[d]) <= slack, s.str()))
            return;
          if (!g.ck(std::fabs(v[d]) == std::fabs(v0[d]), s.str(), ": velocity ",
                    v[d], " was ", v0[d]))
            return;
          if (f > slack && f < m.L[d] - slack &&
              !g.ck(v[d] == (k % 2 ? -v0[d] : v0[d]), s.str(), ": velocity ",
                    v[d], " was ", v0[d]))
            return;
        }
        if (!g.ck(std::fabs(q.second.r.at("TSP")[0] - 1.0) < 1e-15 * 64,
                  "particle ", q.first, " did not complete the step"))
          return;
      }
  }
}

void prop(Gen &g) {
  if (g.chance(1, 3))
    synthetic(g);
  else
    advect(g);
}
} // namespace
PBT_MAIN("C17", prop)
