// C26: trajectories that leave an unstructured mesh are intersected with the
// nearest labelled boundary facet, and nothing else is.
#include "mpifix.hpp"
#include "nodes.hpp"
#include "plexmesh.hpp"
using namespace np;
using namespace PetscInterface;

namespace {

struct Facet {
  int a, b;      // vertices
  int label{-1}; // -1 none
  int group{-1}; // -1 none
  INT gid{-1};
};

struct Cand {
  int f;
  long double t;    // position along the trajectory, a length
  long double slop; // error bound of t
  bool definite;
};

void prop(Gen &g) {
  PlexMesh m;
  gen_nodes(g, nranks());
  m.gen(g, {});
  // facets and their labels
  std::map<std::pair<int, int>, int> cnt;
  for (auto &q : m.c)
    for (std::size_t i = 0; i < q.size(); i++) {
      const int a = q[i], b = q[(i + 1) % q.size()];
      cnt[{std::min(a, b), std::max(a, b)}]++;
    }
  const int ngroups = (int)g.weighted({0, 3, 2, 2});
  const uint64_t salt = g.seed32();
  const bool walls = g.chance(1, 3);  // labelled facets inside of the mesh
  const bool gaps = g.chance(1, 3);   // parts of the outline without a label
  const PetscInt first = (PetscInt)g.integer(0, 500);
  const PetscInt nlabel = ngroups + (PetscInt)g.draw(3);
  std::map<PetscInt, std::vector<PetscInt>> groups;
  std::vector<PetscInt> gids;
  for (int k = 0; k < ngroups; k++) {
    const PetscInt id = (PetscInt)(k * 7 + (int)g.draw(3));
    gids.push_back(id);
    groups[id] = {first + k};
    if (g.chance(1, 4))
      groups[id].push_back(9000 + k); // a label no facet has
  }
  for (int k = ngroups; k < nlabel; k++)
    if (g.boolean()) // otherwise the label is not looked for
      groups[gids[g.draw(ngroups)]].push_back(first + k);
  std::vector<Facet> F;
  std::map<std::pair<int, int>, int> byv;
  for (auto &x : cnt) {
    Facet f;
    f.a = x.first.first, f.b = x.first.second;
    const uint64_t h = pbt::hash(salt, f.a, f.b);
    const bool lab = x.second == 1 ? !(gaps && h % 4 == 0) : walls && h % 3 == 0;
    if (lab)
      f.label = first + (int)((h >> 10) % (nlabel));
    for (auto &y : groups)
      for (auto l : y.second)
        if (lab && l == f.label)
          f.group = y.first;
    byv[x.first] = (int)F.size();
    F.push_back(f);
  }
  // labels are given to the whole mesh, or to the distributed mesh by vertex
  // pairs; a whole outline by its own function
  const int how = (int)g.draw(3);
  const bool all = how == 2;
  if (all)
    for (auto &f : F) {
      f.label = cnt.at({f.a, f.b}) == 1 ? (int)first : -1;
      f.group = -1;
      for (auto &y : groups)
        for (auto l : y.second)
          if (l == f.label)
            f.group = y.first;
    }
  g.note(how == 0 ? "labels before the distribution" : all ? "whole outline labelled" : "labels by vertex pairs");
  if (how == 0)
    m.label_hook = [&](DM dm) {
    PETSCCHK(DMCreateLabel(dm, "Face Sets"));
    DMLabel l;
    PETSCCHK(DMGetLabel(dm, "Face Sets", &l));
    if (rank() != 0)
      return;
    const PetscInt nc = (PetscInt)m.c.size();
    PetscInt s, e;
    PETSCCHK(DMPlexGetHeightStratum(dm, 1, &s, &e));
    for (PetscInt p = s; p < e; p++) {
      const PetscInt *cone;
      PETSCCHK(DMPlexGetCone(dm, p, &cone));
      const int a = (int)(cone[0] - nc), b = (int)(cone[1] - nc);
      auto &f = F[byv.at({std::min(a, b), std::max(a, b)})];
      if (f.label >= 0)
        PETSCCHK(DMLabelSetValue(l, p, f.label));
    }
  };
  m.build_dm();
  const std::string fs = face_sets_label;
  g.ck(fs == "Face Sets", "the label is called ", fs);
  if (how == 1) {
    std::map<Pt, int> vi;
    for (std::size_t i = 0; i < m.v.size(); i++)
      vi[m.v[i]] = (int)i;
    std::vector<PetscInt> num(m.v.size(), -1);
    PetscInt vs, ve;
    PETSCCHK(DMPlexGetDepthStratum(m.dm, 0, &vs, &ve));
    IS is;
    const PetscInt *ptr;
    PETSCCHK(DMPlexGetVertexNumbering(m.dm, &is));
    PETSCCHK(ISGetIndices(is, &ptr));
    {
      DMPlexHelper dh(MPI_COMM_WORLD, m.dm);
      for (PetscInt p = vs; p < ve; p++) {
        std::vector<std::vector<REAL>> vv;
        dh.get_generic_vertices(p, vv);
        num.at(vi.at(Pt{vv.at(0)[0], vv.at(0)[1]})) = signed_global_id_to_global_id(ptr[p - vs]);
      }
      dh.free();
    }
    PETSCCHK(ISRestoreIndices(is, &ptr));
    MPI_Allreduce(MPI_IN_PLACE, num.data(), (int)num.size(), MPIU_INT, MPI_MAX, MPI_COMM_WORLD);
    // the pairs are given by any rank, in any order
    std::vector<PetscInt> s, e, l;
    for (auto &f : F) {
      const uint64_t h = pbt::hash(salt, f.a, f.b, 99);
      if (f.label < 0 || (int)(h % nranks()) != rank())
        continue;
      s.push_back(num[(h >> 20) % 2 ? f.a : f.b]);
      e.push_back(num[(h >> 20) % 2 ? f.b : f.a]);
      l.push_back(f.label);
    }
    label_dmplex_edges(m.dm, fs, s, e, l);
  } else if (all)
    label_all_dmplex_boundaries(m.dm, fs, first);
  m.mesh = std::make_shared<DMPlexInterface>(m.dm, m.offset, MPI_COMM_WORLD);
  if (!m.identify(g)) {
    g.sync();
    return;
  }
  // global ids of the facets
  {
    std::map<std::vector<Pt>, int> by;
    for (std::size_t i = 0; i < F.size(); i++)
      by[PlexMesh::sorted({m.v[F[i].a], m.v[F[i].b]})] = (int)i;
    std::vector<INT> lo(F.size(), 1ll << 60), hi(F.size(), -1);
    PetscInt s, e;
    PETSCCHK(DMPlexGetHeightStratum(m.dm, 1, &s, &e));
    for (PetscInt p = s; p < e; p++) {
      std::vector<std::vector<REAL>> vv;
      m.mesh->dmh->get_generic_vertices(p, vv);
      if (!g.ck(vv.size() == 2, "facet with ", vv.size(), " vertices"))
        break;
      auto it = by.find(PlexMesh::sorted({Pt{vv[0][0], vv[0][1]}, Pt{vv[1][0], vv[1][1]}}));
      if (!g.ck(it != by.end(), "unknown facet ", p))
        break;
      const INT id = m.mesh->dmh->get_point_global_index(p);
      lo[it->second] = std::min(lo[it->second], id);
      hi[it->second] = std::max(hi[it->second], id);
    }
    MPI_Allreduce(MPI_IN_PLACE, lo.data(), (int)lo.size(), MPI_INT64_T, MPI_MIN, MPI_COMM_WORLD);
    MPI_Allreduce(MPI_IN_PLACE, hi.data(), (int)hi.size(), MPI_INT64_T, MPI_MAX, MPI_COMM_WORLD);
    std::set<INT> ids;
    for (std::size_t i = 0; i < F.size(); i++) {
      g.ck(lo[i] == hi[i], "facet ", i, " has global ids ", lo[i], " and ", hi[i]);
      F[i].gid = lo[i];
      ids.insert(lo[i]);
    }
    g.ck(ids.size() == F.size(), "facets share global ids");
  }
  const double tol = g.pick<double>({0.0, 0.0, 1e-14, 1e-9});
  const bool own_sym = g.boolean();
  const int prev_ncomp = 2 + (int)g.draw(2);
  const bool with_prev = own_sym && g.boolean();
  const int npos = g.chance(1, 4) ? 3 : 2;
  Sym<REAL> prev("MYPREV");
  auto mapper = std::make_shared<DMPlexLocalMapper>(target(), m.mesh);
  auto domain = std::make_shared<Domain>(m.mesh, mapper);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), npos, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<REAL>("W"), 2)};
  if (with_prev)
    spec.push(ParticleProp(prev, prev_ncomp));
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  auto b2 = std::make_shared<BoundaryInteraction2D>(target(), m.mesh, groups, tol, own_sym ? std::optional<Sym<REAL>>(prev) : std::nullopt);
  g.ck(own_sym ? b2->previous_position_sym.name == "MYPREV" : true, "previous position sym");
  const int npart = (int)g.size(0, 60);
  const int steps = (int)g.size(1, 4);
  const int sel = (int)g.draw(3); // whole group, whole group, sub group
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
  for (auto &p : m.v)
    for (int d = 0; d < 2; d++)
      lo[d] = std::min(lo[d], p[d]), hi[d] = std::max(hi[d], p[d]);
  const double size = std::max(hi[0] - lo[0], hi[1] - lo[1]);
  g.note("groups ", ngroups, " labels ", nlabel, walls ? " walls" : "", gaps ? " gaps" : "", " tol ", tol, " particles ", npart, " steps ", steps, " sub group ", sel == 2, " ncomp ", npos);
  {
    std::vector<INT> mine;
    for (int id = 0; id < npart; id++)
      if ((int)(pbt::hash(salt, id, 777) % nranks()) == rank())
        mine.push_back(id);
    ParticleSet init((int)mine.size(), spec);
    for (std::size_t i = 0; i < mine.size(); i++) {
      const Pt p = plex_point(m, pbt::hash(salt, mine[i], 1), true);
      for (int d = 0; d < 2; d++)
        init[Sym<REAL>("P")][i][d] = p[d];
      if (npos == 3)
        init[Sym<REAL>("P")][i][2] = (double)mine[i] * 0.25 - 3.0;
      init[Sym<INT>("CELL_ID")][i][0] = 0;
      init[Sym<INT>("ID")][i][0] = mine[i];
      for (int k = 0; k < 2; k++)
        init[Sym<REAL>("W")][i][k] = rval(mine[i], 3, k);
    }
    A->add_particles_local(init);
    A->hybrid_move();
    A->cell_move();
  }
  bool hits = false;
  for (int s = 0; s < steps && !g.failed; s++) {
    // where each particle goes
    auto before = snapshot(g, A);
    if (g.failed)
      break;
    std::vector<REAL> tab(2 * npart + 2, 0.0);
    for (auto &r : before) {
      const INT id = r.i["ID"][0];
      const double *a = r.r["P"].data();
      const uint64_t h = pbt::hash(salt, id, s, 5);
      auto U = [&](int k) { return (double)(pbt::hash(h, k) >> 11) * 0x1p-53; };
      double b[2] = {a[0], a[1]};
      switch (h % 8) {
      case 0:
        break; // stays
      case 1:  // anywhere near the mesh
      case 2:
        for (int d = 0; d < 2; d++)
          b[d] = lo[d] + (U(d) * 2.0 - 0.5) * (hi[d] - lo[d]);
        break;
      case 3: // along an axis
        b[(h >> 8) % 2] += (U(1) - 0.5) * 2.5 * size;
        break;
      case 4: // far away
        for (int d = 0; d < 2; d++)
          b[d] += (U(d) - 0.5) * 40.0 * size;
        break;
      case 5: { // towards and past a point of a facet
        auto &f = F[(h >> 8) % F.size()];
        const double u = U(1), w = 1.0 + 0.5 * U(2);
        for (int d = 0; d < 2; d++)
          b[d] += w * ((1 - u) * m.v[f.a][d] + u * m.v[f.b][d] - a[d]);
      } break;
      case 6: { // a short step
        const double th = 6.283185307179586 * U(1);
        b[0] += 0.1 * size * U(2) * std::cos(th);
        b[1] += 0.1 * size * U(2) * std::sin(th);
      } break;
      default: { // to another place inside
        const Pt p = plex_point(m, pbt::hash(h, 3), true);
        b[0] = p[0], b[1] = p[1];
      }
      }
      tab[2 * id] = b[0], tab[2 * id + 1] = b[1];
    }
    const INT mod = 2 + (INT)(salt % 3);
    ParticleSubGroupSharedPtr sub;
    if (sel == 2) {
      sub = particle_sub_group(
          A, [=](auto ID) { return ID.at(0) % mod == 0; }, Access::read(Sym<INT>("ID")));
      b2->pre_integration(sub);
    } else
      b2->pre_integration(A);
    {
      BufferDevice<REAL> bt(target(), tab);
      auto pt = bt.ptr;
      particle_loop(
          A,
          [=](auto P, auto ID) {
            P.at(0) = pt[2 * ID.at(0)];
            P.at(1) = pt[2 * ID.at(0) + 1];
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
          ->execute();
    }
    auto res = sub ? b2->post_integration(sub) : b2->post_integration(A);
    auto norm = b2->get_device_normal_mapper();
    // what was reported: id -> group, facet, point, normal, mapped normal
    struct Hit {
      INT group, gid, mgid, ok;
      double p[2], n[2], q[2];
    };
    std::map<INT, Hit> got;
    g.ck(res.size() == groups.size(), "post_integration returns ", res.size(), " groups for ", groups.size());
    for (auto &x : res) {
      if (!g.ck(groups.count(x.first) == 1 && x.second != nullptr, "unknown group ", x.first))
        break;
      const INT np = x.second->get_npart_local();
      auto fi = std::make_shared<LocalArray<INT>>(target(), npart + 1, 0);
      auto fm = std::make_shared<LocalArray<INT>>(target(), 3 * npart + 3, -7);
      auto fr = std::make_shared<LocalArray<REAL>>(target(), 6 * npart + 6, -7.0);
      if (!g.ck(contains_boundary_interaction_data(x.second, 2), "no boundary interaction data on the sub group"))
        break;
      particle_loop(
          x.second,
          [=](auto ID, auto IP, auto IN, auto IM, auto FI, auto FM, auto FR) {
            const INT id = ID.at(0);
            FI.fetch_add(id, (INT)1);
            FM.at(3 * id) = IM.at_ephemeral(0);
            FM.at(3 * id + 1) = IM.at_ephemeral(1);
            REAL *n = nullptr;
            FM.at(3 * id + 2) = norm.get(IM.at_ephemeral(1), &n) ? 1 : 0;
            for (int d = 0; d < 2; d++) {
              FR.at(6 * id + d) = IP.at_ephemeral(d);
              FR.at(6 * id + 2 + d) = IN.at_ephemeral(d);
              FR.at(6 * id + 4 + d) = n ? n[d] : -9.0;
            }
          },
          Access::read(Sym<INT>("ID")), Access::read(BoundaryInteractionSpecification::intersection_point), Access::read(BoundaryInteractionSpecification::intersection_normal),
          Access::read(BoundaryInteractionSpecification::intersection_metadata), Access::add(fi), Access::write(fm), Access::write(fr))
          ->execute();
      auto vi = fi->get();
      auto vm = fm->get();
      auto vr = fr->get();
      INT tot = 0;
      for (int id = 0; id < npart; id++) {
        tot += vi[id];
        if (!vi[id])
          continue;
        if (!g.ck(vi[id] == 1, "particle ", id, " is ", vi[id], " times in group ", x.first))
          break;
        if (!g.ck(got.count(id) == 0, "particle ", id, " is in the groups ", got[id].group, " and ", x.first))
          break;
        Hit q;
        q.group = x.first, q.gid = vm[3 * id + 1], q.mgid = vm[3 * id], q.ok = vm[3 * id + 2];
        for (int d = 0; d < 2; d++)
          q.p[d] = vr[6 * id + d], q.n[d] = vr[6 * id + 2 + d], q.q[d] = vr[6 * id + 4 + d];
        got[id] = q;
      }
      g.ck(tot == np, "sub group of ", np, " particles iterated over ", tot);
    }
    // the normal mapper knows the facets it has met and no others
    {
      const int nf = (int)F.size();
      std::vector<INT> ids(nf + 2), found(nf + 2, -1);
      std::vector<REAL> nn(2 * nf + 4, 0.0);
      for (int k = 0; k < nf; k++)
        ids[k] = F[k].gid;
      ids[nf] = (INT)1 << 40, ids[nf + 1] = 9999991;
      BufferDevice<INT> bi(target(), ids), bf(target(), found);
      BufferDevice<REAL> bn(target(), nn);
      auto pi = bi.ptr;
      auto pf = bf.ptr;
      auto pn = bn.ptr;
      target()
          ->queue
          .parallel_for(sycl::range<1>(nf + 2),
                        [=](sycl::id<1> i) {
                          REAL *n = nullptr;
                          pf[i] = norm.get(pi[i], &n) ? 1 : 0;
                          if (pf[i])
                            pn[2 * i] = n[0], pn[2 * i + 1] = n[1];
                        })
          .wait_and_throw();
      found = bf.get();
      nn = bn.get();
      for (int k = 0; k < nf + 2 && !g.failed; k++) {
        if (!found[k])
          continue;
        if (!g.ck(k < nf && F[k].group >= 0, "the normal mapper knows the facet with id ", ids[k], " which is in no group"))
          break;
        const Pt u = m.v[F[k].a], v = m.v[F[k].b];
        const double fx = v[0] - u[0], fy = v[1] - u[1], L = std::hypot(fx, fy);
        g.ck(std::fabs(std::hypot(nn[2 * k], nn[2 * k + 1]) - 1.0) < 1e-12 && std::fabs(nn[2 * k] * fx + nn[2 * k + 1] * fy) <= 1e-12 * (L + m.big * 1e-3), "normal mapper: (", nn[2 * k], ",", nn[2 * k + 1], ") of a facet along (", fx, ",", fy, ")");
      }
    }
    // the oracle
    auto after = snapshot(g, A);
    g.ck(after.size() == before.size(), "particles appear or vanish");
    std::map<INT, Row *> by;
    for (auto &r : after)
      by[r.i["ID"][0]] = &r;
    for (auto &r : before) {
      if (g.failed)
        break;
      const INT id = r.i["ID"][0];
      auto it = by.find(id);
      if (!g.ck(it != by.end(), "particle ", id, " vanished"))
        break;
      std::vector<REAL> want = r.r["P"];
      want[0] = tab[2 * id], want[1] = tab[2 * id + 1];
      g.ck(same(it->second->r["P"], want) && same(it->second->r["W"], r.r["W"]) && it->second->cell == r.cell, "finding the intersections changed particle ", id);
      const bool in_set = !sub || id % mod == 0;
      const long double ax = r.r["P"][0], ay = r.r["P"][1], bx = tab[2 * id], by_ = tab[2 * id + 1];
      const long double tx = bx - ax, ty = by_ - ay, T = std::hypot(tx, ty);
      std::vector<Cand> cs;
      const long double eps = 1e-12L * ((long double)m.big + T);
      if (in_set && T > 0)
        for (int k = 0; k < (int)F.size(); k++) {
          auto &f = F[k];
          if (f.group < 0)
            continue;
          const long double ux = m.v[f.a][0], uy = m.v[f.a][1];
          const long double fx = m.v[f.b][0] - ux, fy = m.v[f.b][1] - uy, L = std::hypot(fx, fy);
          const long double cr = tx * fy - ty * fx, sn = std::fabs(cr) / (T * L);
          const long double wx = ux - ax, wy = uy - ay;
          if (sn < 1e-6L) {
            // nearly parallel: a candidate if they come close
            const long double d0 = std::fabs(wx * ty - wy * tx) / T;
            if (d0 < 1e-5L * (T + L))
              cs.push_back({k, 0, T + 1, false});
            continue;
          }
          const long double t = (wx * fy - wy * fx) / cr * T;  // along the trajectory
          const long double u = (wx * ty - wy * tx) / cr * L;  // along the facet
          const long double M = eps / sn + 4 * (long double)tol * (1 + L + 1 / sn);
          if (t < -M || t > T + M || u < -M || u > L + M)
            continue;
          cs.push_back({k, t, M, t > M && t < T - M && u > M && u < L - M});
        }
      // what may be reported: anything not certainly behind a certain hit
      long double bound = 1e300L;
      for (auto &c : cs)
        if (c.definite)
          bound = std::min(bound, c.t + 2 * c.slop);
      auto h = got.find(id);
      std::ostringstream w;
      w.precision(17);
      w << "step " << s << " particle " << id << " from (" << (double)ax << "," << (double)ay << ") to (" << (double)bx << "," << (double)by_ << "): ";
      if (h == got.end()) {
        std::string hit;
        for (auto &c : cs)
          if (c.definite)
            hit = "facet " + std::to_string(c.f) + " (" + std::to_string(m.v[F[c.f].a][0]) + "," + std::to_string(m.v[F[c.f].a][1]) + ")-(" + std::to_string(m.v[F[c.f].b][0]) + "," + std::to_string(m.v[F[c.f].b][1]) + ")";
        g.ck(bound > 1e299L, w.str(), "crosses ", hit, " but no intersection is reported");
        continue;
      }
      hits = true;
      const Hit &q = h->second;
      int k = -1;
      for (std::size_t i = 0; i < F.size(); i++)
        if (F[i].gid == q.gid)
          k = (int)i;
      if (!g.ck(k >= 0, w.str(), "reported facet id ", q.gid, " does not exist"))
        break;
      w << "reported facet " << k << " group " << q.group << " point (" << q.p[0] << "," << q.p[1] << ") ";
      g.ck(in_set, w.str(), "the particle is not in the sub group");
      g.ck(F[k].group == q.group && q.mgid == q.group, w.str(), "the facet is in group ", F[k].group, ", the metadata say ", q.mgid);
      const Cand *c = nullptr;
      for (auto &x : cs)
        if (x.f == k)
          c = &x;
      if (!g.ck(c != nullptr, w.str(), "the trajectory does not cross this facet"))
        break;
      g.ck(c->t - c->slop <= bound, w.str(), "another facet is crossed at distance ", (double)bound, ", this one at ", (double)c->t);
      const Pt u = m.v[F[k].a], v = m.v[F[k].b];
      const double fx = v[0] - u[0], fy = v[1] - u[1], L = std::hypot(fx, fy);
      if (c->definite) {
        const long double ex = ax + tx / T * c->t, ey = ay + ty / T * c->t;
        g.ck(std::hypot(ex - q.p[0], ey - q.p[1]) <= 2 * c->slop, w.str(), "the point of intersection is (", (double)ex, ",", (double)ey, ")");
      }
      g.ck(std::fabs(std::hypot(q.n[0], q.n[1]) - 1.0) < 1e-12 && std::fabs(q.n[0] * fx + q.n[1] * fy) <= 1e-12 * (L + m.big * 1e-3), w.str(), "normal (", q.n[0], ",", q.n[1], ") of a facet along (", fx, ",", fy, ")");
      g.ck(q.ok == 1 && q.q[0] == q.n[0] && q.q[1] == q.n[1], w.str(), "the normal mapper gives (", q.q[0], ",", q.q[1], ") found ", q.ok, ", the intersection (", q.n[0], ",", q.n[1], ")");
      if (c->definite)
        g.label("hit");
    }
    g.sync();
    if (g.failed)
      break;
    res.clear();
    // continue from inside of the mesh
    std::vector<REAL> back(2 * npart + 2, 0.0);
    for (auto &r : before) {
      const INT id = r.i["ID"][0];
      Pt p{tab[2 * id], tab[2 * id + 1]};
      bool in = false;
      for (std::size_t e = 0; e < m.c.size(); e++)
        in = in || m.depth((int)e, p) > m.tol();
      if (!in || m.outline(p) < m.tol())
        p = {r.r["P"][0], r.r["P"][1]};
      back[2 * id] = p[0], back[2 * id + 1] = p[1];
    }
    {
      BufferDevice<REAL> bt(target(), back);
      auto pt = bt.ptr;
      particle_loop(
          A,
          [=](auto P, auto ID) {
            P.at(0) = pt[2 * ID.at(0)];
            P.at(1) = pt[2 * ID.at(0) + 1];
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
          ->execute();
    }
    sub.reset();
    A->hybrid_move();
    A->cell_move();
  }
  g.mark(hits || nranks() > 1);
  b2->free();
  A->free();
  g.sync();
}

} // namespace

PBT_MAIN("C26", prop)
