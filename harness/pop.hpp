// A generated particle group: mesh, occupancy pattern, launch parameters, and
// the host's picture of which id sits in which cell and layer.
#pragma once
#include "np.hpp"

namespace np {

// Occupancies of this rank's cells. Every rank makes the same draws.
inline std::vector<int> gen_occ(Gen &g, int ncell, int maxn) {
  std::vector<int> occ(ncell, 0);
  const int kind = (int)g.draw(6);
  const int a = (int)g.size(0, maxn), b = (int)g.size(0, maxn);
  const uint64_t salt = g.seed32();
  const int me = rank();
  for (int c = 0; c < ncell; c++) {
    const uint64_t h = pbt::hash(salt, c, me);
    if (kind == 0)
      occ[c] = a;
    else if (kind == 1)
      occ[c] = a + (int)(h % 4);
    else if (kind == 2)
      occ[c] = (int)(h % (uint64_t)(1 + std::max(a, b)));
    else if (kind == 3)
      occ[c] = h % 3 == 0 ? (int)((h >> 8) % (uint64_t)(a + 1)) : 0;
    else if (kind == 4)
      occ[c] = c == (int)(pbt::hash(salt, me) % ncell) ? b : a / 8;
    else
      occ[c] = (h & 1) ? a : b;
  }
  if (kind == 5 && g.boolean()) // explicit counts for the first cells
    for (int c = 0; c < 6; c++) {
      const int v = (int)g.size(0, maxn);
      if (c < ncell)
        occ[c] = v;
    }
  return occ;
}

struct PartInfo {
  INT id, cell, layer;
};

struct Pop {
  CartMesh cm;
  DomainSharedPtr domain;
  ParticleGroupSharedPtr A;
  ParticleSpec spec;
  int ncell{0};
  std::vector<PartInfo> parts; // in (cell, layer) order
  std::vector<int> occ;
  INT next{0};

  static ParticleSpec base_spec(int ndim) {
    return ParticleSpec{ParticleProp(Sym<REAL>("P"), ndim, true),
                        ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                        ParticleProp(Sym<INT>("ID"), 1)};
  }
  void params(Gen &g) {
    set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 2, 3, 16, 64}));
    set_param("LOOP_LOCAL_SIZE",
              g.pick<std::size_t>({32, 1, 2, 3, 4, 8, 16, 24, 256}));
    set_param("NESO_PARTICLES_NPART_CELL_HINT", 0);
  }
  void gen(Gen &g, const CartMesh::Opts &mo, const ParticleSpec &extra,
           int maxn, bool with_mapper = false, int max_total = 4000) {
    params(g);
    cm.gen(g, mo);
    ncell = cm.ncell;
    if (with_mapper)
      domain = std::make_shared<Domain>(
          cm.mesh, CartesianHMeshLocalMapper(target(), cm.mesh));
    else
      domain = std::make_shared<Domain>(cm.mesh);
    spec = base_spec(cm.ndim);
    for (auto p : extra.properties_real)
      spec.push(p);
    for (auto p : extra.properties_int)
      spec.push(p);
    A = std::make_shared<ParticleGroup>(domain, spec, target());
    occ = gen_occ(g, ncell, maxn);
    add(occ, g.seed32(), max_total);
    g.note(cm.str(), " particles here ", parts.size(), " occupancy ",
           np::str(occ));
  }
  // Values of properties other than CELL_ID and ID at creation.
  static REAL init_r(INT id, const std::string &n, int k) {
    return rval(id, n.size() * 131 + n[0] + 7 * n.back(), k);
  }
  static INT init_i(INT id, const std::string &n, int k) {
    return ival(id, n.size() * 131 + n[0] + 7 * n.back(), k);
  }
  // Adds occ[c] particles to each cell in a shuffled order.
  void add(const std::vector<int> &occ, uint64_t salt, int max_total = 4000) {
    std::vector<INT> cells;
    for (int c = 0; c < (int)occ.size(); c++)
      for (int l = 0; l < occ[c] && (int)cells.size() < max_total; l++)
        cells.push_back(c);
    for (std::size_t i = cells.size(); i > 1; i--)
      std::swap(cells[i - 1], cells[pbt::hash(salt, i) % i]);
    const int n = (int)cells.size();
    ParticleSet ps(n, spec);
    for (int i = 0; i < n; i++) {
      const INT id = 1 + next + i + (INT)rank() * 1000000;
      for (auto &p : spec.properties_real)
        for (int k = 0; k < p.ncomp; k++)
          ps[p.sym][i][k] = init_r(id, p.name, k);
      for (auto &p : spec.properties_int)
        for (int k = 0; k < p.ncomp; k++)
          ps[p.sym][i][k] = init_i(id, p.name, k);
      ps[Sym<INT>("ID")][i][0] = id;
      ps[Sym<INT>("CELL_ID")][i][0] = cells[i];
    }
    next += n;
    A->add_particles_local(ps);
    refresh();
  }
  // Reads ids back from the group.
  void refresh() {
    parts.clear();
    for (int c = 0; c < ncell; c++) {
      if (A->get_npart_cell(c) == 0)
        continue;
      auto ids = A->get_cell(Sym<INT>("ID"), c);
      for (int l = 0; l < ids->nrow; l++)
        parts.push_back({ids->at(l, 0), c, l});
    }
  }
};

// Calls fn(PartInfo index, value accessor) for each particle of one dat.
template <typename T>
inline std::vector<std::vector<T>> read_dat(const Pop &p, const std::string &n) {
  std::vector<std::vector<T>> out;
  out.reserve(p.parts.size());
  std::shared_ptr<CellDataT<T>> cd;
  INT last = -1;
  auto dat = p.A->get_dat(Sym<T>(n));
  for (auto &q : p.parts) {
    if (q.cell != last) {
      cd = p.A->get_cell(Sym<T>(n), (int)q.cell);
      last = q.cell;
    }
    std::vector<T> v;
    for (int k = 0; k < dat->ncomp; k++)
      v.push_back(q.layer < cd->nrow ? cd->at(q.layer, k) : T(-12345));
    out.push_back(v);
  }
  return out;
}

// A sub group with the host predicate it must equal.
struct Sub {
  ParticleSubGroupSharedPtr s;
  std::function<bool(const PartInfo &)> in;
  std::string name;
};
inline ParticleSubGroupSharedPtr mask_on(std::shared_ptr<ParticleGroup> p,
                                         uint64_t salt, uint64_t num,
                                         uint64_t den) {
  return particle_sub_group(
      p,
      [=](auto ID) {
        return pbt::hash(salt, (uint64_t)ID.at(0)) % den < num;
      },
      Access::read(Sym<INT>("ID")));
}
inline ParticleSubGroupSharedPtr mask_on(ParticleSubGroupSharedPtr p,
                                         uint64_t salt, uint64_t num,
                                         uint64_t den) {
  return particle_sub_group(
      p,
      [=](auto ID) {
        return pbt::hash(salt, (uint64_t)ID.at(0)) % den < num;
      },
      Access::read(Sym<INT>("ID")));
}
inline Sub gen_sub(Gen &g, Pop &pop) {
  Sub out;
  const int depth = (int)g.draw(3);
  const int kind = (int)g.draw(6);
  if (kind == 5 && depth == 0) {
    out.s = std::make_shared<ParticleSubGroup>(pop.A);
    out.in = [](const PartInfo &) { return true; };
    out.name = "whole";
    return out;
  }
  for (int d = 0; d <= depth; d++) {
    const int k = d == 0 ? kind : (int)g.draw(6);
    if (k == 4) { // cells
      const int a = (int)(g.draw(1000) % pop.ncell);
      const int b = a + (int)(g.draw(1000) % (pop.ncell - a + 1));
      out.s = d == 0 ? particle_sub_group(pop.A, a, b)
                     : particle_sub_group(out.s, a, b);
      auto prev = out.in;
      out.in = [=](const PartInfo &p) {
        return p.cell >= a && p.cell < b && (!prev || prev(p));
      };
      out.name += "cells[" + std::to_string(a) + "," + std::to_string(b) + ") ";
    } else {
      const uint64_t salt = g.seed32();
      const uint64_t den = 1 + g.draw(6);
      const uint64_t num = k == 3 ? (g.boolean() ? 0 : den) : 1 + g.draw(den);
      out.s = d == 0 ? mask_on(pop.A, salt, num, den)
                     : mask_on(out.s, salt, num, den);
      auto prev = out.in;
      out.in = [=](const PartInfo &p) {
        return pbt::hash(salt, (uint64_t)p.id) % den < num && (!prev || prev(p));
      };
      out.name += "mask " + std::to_string(num) + "/" + std::to_string(den) + " ";
    }
  }
  return out;
}

} // namespace np
