// C15: periodic wrapping returns coordinates to the domain, moves them by
// multiples of the extent, and touches nothing else.
#include "np.hpp"
#include <cmath>
using namespace np;

namespace {

// One coordinate, classified for the non-triviality rule.
double gen_coord(Gen &g, double E, int kind, uint64_t h) {
  const double u = (double)(h >> 11) * 0x1p-53;
  const int s = (h & 1) ? 1 : -1;
  switch (kind) {
  case 0: // inside
    return u * E < E ? u * E : 0.0;
  case 1: // just outside or on the ends
    switch ((h >> 1) % 8) {
    case 0: return E;
    case 1: return std::nextafter(E, 2 * E);
    case 2: return std::nextafter(E, 0.0);
    case 3: return -0.0;
    case 4: return -5e-324;
    case 5: return 5e-324;
    case 6: return -1e-17 * E;
    default: return 0.0;
    }
  case 2: // around multiples of the extent
    {
      const double k = (double)((h >> 4) % 7) - 3.0;
      const double m = k * E;
      switch ((h >> 1) % 4) {
      case 0: return m;
      case 1: return std::nextafter(m, 1e300);
      case 2: return std::nextafter(m, -1e300);
      default: return m + s * u * 1e-12 * E;
      }
    }
  case 3: // a few extents away
    return (4.0 * u - 2.0) * E;
  case 4: // many extents away
    return s * std::exp2(u * 30.0) * E;
  case 5: // very many
    return s * std::exp2(28.0 + u * 30.0) * E;
  default: // any finite magnitude
    return s * std::exp2(u * 1800.0 - 900.0);
  }
}

void prop(Gen &g) {
  CartMesh m;
  CartMesh::Opts o;
  o.dyadic = false;
  o.max_dim2 = 5;
  m.gen(g, o);
  set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 2, 16}));
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 3, 16, 256}));
  set_param("NESO_PARTICLES_NPART_CELL_HINT", 0);
  auto domain = std::make_shared<Domain>(m.mesh);
  const int xp = (int)g.draw(3); // additional components of the positions
  const int ncp = m.ndim + xp;
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), ncp, true),
                    ParticleProp(Sym<REAL>("Q"), m.ndim + (int)g.draw(2)),
                    ParticleProp(Sym<REAL>("V"), 2),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), 1),
                    ParticleProp(Sym<INT>("K"), 2)};
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());

  const int ctor = (int)g.draw(4);
  const bool use_mask = ctor & 1;
  std::vector<int> mask(m.ndim, 1);
  if (use_mask) {
    for (auto &x : mask)
      x = g.chance(2, 5) ? 0 : (g.chance(1, 5) ? -3 : 1 + (int)g.draw(2));
    const int xm = (int)g.draw(3);
    for (int i = 0; i < xm; i++)
      mask.push_back((int)g.draw(2));
  }
  // group constructors use the positions, the others a given dat
  const std::string which = ctor < 2 ? "P" : (g.boolean() ? "P" : "Q");
  auto dat = A->get_dat(Sym<REAL>(which));
  std::unique_ptr<CartesianPeriodic> pbc;
  switch (ctor) {
  case 0: pbc = std::make_unique<CartesianPeriodic>(m.mesh, A); break;
  case 1: pbc = std::make_unique<CartesianPeriodic>(m.mesh, A, mask); break;
  case 2:
    pbc = std::make_unique<CartesianPeriodic>(target(), m.mesh, dat);
    break;
  default:
    pbc = std::make_unique<CartesianPeriodic>(target(), m.mesh, dat, mask);
  }
  g.note(m.str(), " wraps ", which, " mask ",
         use_mask ? np::str(mask) : std::string("none"), " ncomp ", ncp);
  Model model;
  INT next = 1 + (INT)rank() * 1000000;
  const int nr = 1 + (int)g.draw(3);
  for (int r = 0; r < nr && !g.failed; r++) {
    const int kind = (int)g.draw(7);
    const bool mixed = g.boolean();
    const int n = (int)g.size(0, g.chance(1, 6) ? 300 : 40);
    const uint64_t salt = g.seed32();
    ParticleSet ps(n, spec);
    for (int i = 0; i < n; i++) {
      const INT id = next++;
      Rec rec;
      rec.rank = rank();
      rec.cell = (INT)(pbt::hash(salt, id, 1) % (uint64_t)m.ncell);
      for (auto &p : spec.properties_real)
        for (int k = 0; k < p.ncomp; k++) {
          double v = rval(id, p.name[0], k);
          if (p.name != "V") {
            const uint64_t h = pbt::hash(salt, id, 7 + k, p.name[0]);
            const int kd =
                mixed ? (int)(pbt::hash(h, 3) % 7) : kind;
            v = gen_coord(g, m.L[k < m.ndim ? k : 0], kd, h);
          }
          ps[p.sym][i][k] = v;
          rec.r[p.name].push_back(v);
        }
      for (auto &p : spec.properties_int)
        for (int k = 0; k < p.ncomp; k++) {
          INT v = p.name == "ID" ? id : ival(id, p.name[0], k);
          if (p.name == "CELL_ID")
            v = rec.cell;
          ps[p.sym][i][k] = v;
          rec.i[p.name].push_back(v);
        }
      model[id] = rec;
    }
    A->add_particles_local(ps);
    g.note("round ", r, " kind ", mixed ? -1 : kind, " particles ", n);
    const int times = 1 + (int)g.draw(3);
    for (int t = 0; t < times && !g.failed; t++) {
      pbc->execute();
      bool touched = false;
      for (int c = 0; c < m.ncell && !g.failed; c++) {
        const INT nc = A->get_npart_cell(c);
        if (!nc)
          continue;
        auto ids = A->get_cell(Sym<INT>("ID"), c);
        auto pos = A->get_cell(Sym<REAL>(which), c);
        for (INT l = 0; l < nc && !g.failed; l++) {
          const INT id = ids->at(l, 0);
          if (!g.ck(model.count(id), "unknown particle ", id))
            break;
          auto &v = model[id].r[which];
          for (int d = 0; d < m.ndim; d++) {
            const double a = v[d], b = pos->at(l, d), E = m.L[d];
            if (!mask[d])
              continue; // compared bitwise below
            std::ostringstream s;
            s.precision(17);
            s << "particle " << id << " dimension " << d << " extent " << E
              << " coordinate " << a << " became " << b;
            if (!g.ck(b >= 0.0 && b < E, s.str(), ": outside of the domain"))
              break;
            if (a >= 0.0 && a < E) {
              if (!g.ck(b == a, s.str(), ": it was inside and was changed"))
                break;
            } else {
              touched = true;
              long double want = fmodl((long double)a, (long double)E);
              if (want < 0)
                want += E;
              long double diff = fabsl(want - (long double)b);
              diff = std::min(diff, fabsl((long double)E - diff));
              const double tol = 4.0 * 0x1p-52 * (std::fabs(a) + 4.0 * E);
              if (!g.ck((double)diff <= tol, s.str(),
                        ": not moved by a multiple of the extent"))
                break;
            }
            v[d] = b;
          }
        }
      }
      if (t == 0 && touched)
        g.mark();
      if (g.failed)
        break;
      // everything not asked to change is bitwise as before, all of it
      auto rows = snapshot(g, A);
      if (!g.failed)
        compare(g, rows, model, {true, {"NESO_MPI_RANK"}}, "after wrapping");
    }
    if (g.failed)
      break;
    g.label("a round ran");
    // a displacement of some coordinates before the next round
    if (g.boolean()) {
      const double s0 = g.pick<double>({1e-3, 1.0, 50.0, 1e10});
      const int nd = m.ndim;
      const uint64_t sl = g.seed32();
      particle_loop(
          A,
          [=](auto X, auto ID) {
            for (int d = 0; d < nd; d++) {
              const uint64_t h = pbt::hash(sl, (uint64_t)ID.at(0), d);
              const REAL u = ((double)(h >> 11)) * 0x1p-53 - 0.5;
              X.at(d) = u * s0;
            }
          },
          Access::write(Sym<REAL>(which)), Access::read(Sym<INT>("ID")))
          ->execute();
      for (auto &q : model)
        for (int d = 0; d < nd; d++) {
          const uint64_t h = pbt::hash(sl, (uint64_t)q.first, d);
          const REAL u = ((double)(h >> 11)) * 0x1p-53 - 0.5;
          q.second.r[which][d] = u * s0;
        }
    }
  }
}
} // namespace
PBT_MAIN("C15", prop)
