// Histories of sub groups: a forest of nested sub groups over one group, random
// changes to the group, and the check that every sub group denotes the set its
// definition gives for the current data.
#pragma once
#include "pop.hpp"

namespace np {

struct SgRow {
  INT id, cell, layer, f0, f1, x;
  REAL r0;
};
using IdSet = std::set<INT>;

enum SgKind {
  MASK_F,
  MASK_R,
  MASK_FX,
  MASK_IDX,
  MASK_NP,
  MASK_FR,
  WHOLE,
  CELLS,
  COPY,
  TRUNC,
  DISC,
  UNION,
  PART
};
inline const char *sg_name(int k) {
  static const char *n[] = {"mask F",  "mask R",   "mask F,X",     "mask index",
                            "mask npart", "mask F,R", "whole",     "cells",
                            "copy",    "truncate", "discard",      "union",
                            "partition"};
  return n[k];
}

struct SgNode {
  int kind{0};
  std::vector<int> parents; // empty: the group
  ParticleSubGroupSharedPtr s;
  uint64_t salt{0};
  int num{0}, den{1};
  int a{0}, b{0}; // cells, n, label
  REAL thr{0};
  bool scan{false};
  bool is_static{false};
  bool dropped{false};
  bool has_children{false};
  IdSet frozen;
  std::map<INT, std::pair<INT, INT>> layout; // structure when made static
  bool stale_structure{false}; // a structural operation ran since
};

struct SgWorld {
  Gen &g;
  Pop pop;
  bool derived, mapper{false};
  bool have_x{true};
  bool dirty_p{false}; // particles outside the domain exist
  std::vector<SgNode> nodes;
  INT token{1};
  int used{0}, used_after_change{0};
  bool changed{false};
  std::size_t cap{24};

  SgWorld(Gen &g, bool derived) : g(g), derived(derived) {}

  void init() {
    CartMesh::Opts mo;
    mo.max_stencil = 1;
    mo.max_subdiv = 1;
    mo.max_dim2 = 3;
    mo.max_dim3 = 2;
    mapper = g.chance(1, 4);
    pop.gen(g, mo,
            ParticleSpec{ParticleProp(Sym<REAL>("R"), 2),
                         ParticleProp(Sym<INT>("F"), 2),
                         ParticleProp(Sym<INT>("X"), 1),
                         ParticleProp(Sym<INT>("N"), 1)},
            40, mapper, 300);
    dirty_p = true;
    small_labels();
    if (mapper)
      move(g.seed32());
  }
  void small_labels() {
    particle_loop(
        pop.A,
        [=](auto ID, auto F) {
          F.at(0) = ID.at(0) % 5;
          F.at(1) = ID.at(0) % 7;
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("F")))
        ->execute();
  }

  static INT label(INT v) { // small labels out of arbitrary integers
    return v;
  }

  // ---- current data, read through the host interface -------------------
  std::vector<SgRow> data() {
    pop.refresh();
    std::vector<SgRow> out(pop.parts.size());
    auto f = read_dat<INT>(pop, "F");
    auto r = read_dat<REAL>(pop, "R");
    std::vector<std::vector<INT>> x;
    if (have_x)
      x = read_dat<INT>(pop, "X");
    for (std::size_t i = 0; i < out.size(); i++) {
      const auto &p = pop.parts[i];
      out[i] = {p.id, p.cell, p.layer, f[i][0], f[i][1], have_x ? x[i][0] : 0,
                r[i][0]};
    }
    return out;
  }
  std::map<INT, std::pair<INT, INT>> layout() {
    pop.refresh();
    std::map<INT, std::pair<INT, INT>> m;
    for (auto &p : pop.parts)
      m[p.id] = {p.cell, p.layer};
    return m;
  }

  // ---- node creation ------------------------------------------------------
  template <typename PARENT>
  ParticleSubGroupSharedPtr make_mask(std::shared_ptr<PARENT> p, SgNode &n) {
    const uint64_t salt = n.salt, num = n.num, den = n.den;
    const REAL thr = n.thr;
    auto mk = [&](auto kernel, auto... args) -> ParticleSubGroupSharedPtr {
      if (n.scan) {
        auto sel = std::make_shared<
            ParticleSubGroupImplementation::SubGroupSelectorExclusiveScan>(
            p, kernel, args...);
        return std::make_shared<ParticleSubGroup>(
            std::dynamic_pointer_cast<
                ParticleSubGroupImplementation::SubGroupSelectorBase>(sel));
      }
      return particle_sub_group(p, kernel, args...);
    };
    switch (n.kind) {
    case MASK_F:
      return mk([=](auto F) {
        return pbt::hash(salt, (uint64_t)F.at(0)) % den < num;
      }, Access::read(Sym<INT>("F")));
    case MASK_R:
      return mk([=](auto R) { return R.at(0) < thr; },
                Access::read(Sym<REAL>("R")));
    case MASK_FX: {
      auto sv = std::make_shared<SymVector<INT>>(
          pop.A, std::vector<Sym<INT>>{Sym<INT>("F"), Sym<INT>("X")});
      return mk([=](auto V) {
        return pbt::hash(salt, (uint64_t)V.at(0, 1), (uint64_t)V.at(1, 0)) %
                   den <
               num;
      }, Access::read(sv));
    }
    case MASK_IDX:
      return mk([=](auto I) {
        return pbt::hash(salt, (uint64_t)I.cell, (uint64_t)I.layer) % den < num;
      }, Access::read(ParticleLoopIndex{}));
    case MASK_NP:
      return mk([=](auto NP, auto F) {
        return pbt::hash(salt, (uint64_t)NP.get()) % den < num ||
               F.at(1) % 3 == 0;
      }, Access::read(CellInfoNPart{}), Access::read(Sym<INT>("F")));
    default:
      return mk([=](auto F, auto R) {
        return pbt::hash(salt, (uint64_t)F.at(0)) % den < num || R.at(0) >= thr;
      }, Access::read(Sym<INT>("F")), Access::read(Sym<REAL>("R")));
    }
  }
  static bool pred(const SgNode &n, const SgRow &p, INT npart) {
    const uint64_t num = n.num, den = n.den;
    switch (n.kind) {
    case MASK_F:
      return pbt::hash(n.salt, (uint64_t)p.f0) % den < num;
    case MASK_R:
      return p.r0 < n.thr;
    case MASK_FX:
      return pbt::hash(n.salt, (uint64_t)p.f1, (uint64_t)p.x) % den < num;
    case MASK_IDX:
      return pbt::hash(n.salt, (uint64_t)p.cell, (uint64_t)p.layer) % den < num;
    case MASK_NP:
      return pbt::hash(n.salt, (uint64_t)npart) % den < num || p.f1 % 3 == 0;
    default:
      return pbt::hash(n.salt, (uint64_t)p.f0) % den < num || p.r0 >= n.thr;
    }
  }
  bool needs_x(int i) {
    if (nodes[i].kind == MASK_FX)
      return true;
    for (int p : nodes[i].parents)
      if (needs_x(p))
        return true;
    return false;
  }
  // May the node be used now?
  bool usable(int i) {
    auto &n = nodes[i];
    if (!have_x && needs_x(i))
      return false;
    if (n.is_static)
      return !n.stale_structure || n.s->is_valid();
    for (int p : n.parents)
      if (!usable(p))
        return false;
    return true;
  }
  std::string desc(int i) {
    auto &n = nodes[i];
    std::ostringstream o;
    o << "#" << i << " " << sg_name(n.kind);
    if (n.kind <= MASK_FR)
      o << " " << n.num << "/" << n.den << (n.scan ? " (scan)" : "");
    if (n.kind == CELLS)
      o << " [" << n.a << "," << n.b << ")";
    if (n.kind == TRUNC || n.kind == DISC || n.kind == PART)
      o << " " << n.a;
    if (n.is_static)
      o << " static";
    o << " of ";
    if (n.parents.empty())
      o << "the group";
    for (int p : n.parents)
      o << "#" << p << " ";
    return o.str();
  }
  // Index of a random live node usable as a parent, -1 = group.
  // Ranks may differ in is_valid() only through local structure; the draws do
  // not depend on it: the decision is made collectively.
  bool all_usable(int i) {
    int u = usable(i) ? 1 : 0, v = 0;
    MPI_Allreduce(&u, &v, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    return v;
  }
  int pick_node(bool allow_group) {
    const int n = (int)nodes.size();
    if (n == 0)
      return -1;
    const int k = (int)g.draw(n + (allow_group ? 2 : 0));
    if (k >= n)
      return -1;
    if (nodes[k].dropped || !all_usable(k))
      return -1;
    return k;
  }

  template <typename F> auto with_parent(int p, F f) {
    if (p < 0)
      return f(pop.A);
    return f(nodes[p].s);
  }

  void add_node(SgNode n) {
    for (int p : n.parents)
      nodes[p].has_children = true;
    nodes.push_back(n);
    g.note("create ", desc((int)nodes.size() - 1));
  }

  void create_node() {
    SgNode n;
    const int p = pick_node(true);
    if (p >= 0)
      n.parents.push_back(p);
    const bool want_derived = derived && g.chance(2, 3);
    if (want_derived) {
      const int k = (int)g.draw(4);
      if (k == 0 || k == 1) {
        n.kind = k == 0 ? TRUNC : DISC;
        n.a = (int)g.size(0, 30);
        const bool both = g.boolean();
        n.s = with_parent(p, [&](auto q) {
          return n.kind == TRUNC ? particle_sub_group_truncate(q, n.a)
                                 : particle_sub_group_discard(q, n.a);
        });
        add_node(n);
        if (both) {
          SgNode m;
          m.parents = n.parents;
          m.a = n.a;
          m.kind = k == 0 ? DISC : TRUNC;
          m.s = with_parent(p, [&](auto q) {
            return m.kind == TRUNC ? particle_sub_group_truncate(q, m.a)
                                   : particle_sub_group_discard(q, m.a);
          });
          add_node(m);
        }
      } else if (k == 2) { // partition by F
        const int parts = (int)g.integer(1, 5);
        auto v = with_parent(p, [&](auto q) {
          return particle_group_partition(q, Sym<INT>("F"), parts);
        });
        g.ck((int)v.size() == parts, "partition size");
        for (int j = 0; j < parts && j < (int)v.size(); j++) {
          SgNode m;
          m.parents = n.parents;
          m.kind = PART;
          m.a = j;
          m.s = v[j];
          add_node(m);
        }
      } else { // disjoint union
        SgNode u;
        u.kind = UNION;
        const int how = (int)g.draw(4);
        std::vector<ParticleSubGroupSharedPtr> ps;
        if (how == 0) { // classes of F below one parent
          const int m = (int)g.integer(1, 3);
          for (int j = 0; j < m; j++) {
            SgNode c;
            c.parents = n.parents;
            c.kind = PART;
            c.a = j;
            c.s = with_parent(p, [&](auto q) {
              return particle_sub_group(
                  q, [=](auto F) { return F.at(0) == j; },
                  Access::read(Sym<INT>("F")));
            });
            u.parents.push_back((int)nodes.size());
            add_node(c);
          }
        } else if (how == 1) { // disjoint cell ranges, of different parents
          int at = 0;
          const int m = (int)g.integer(1, 3);
          for (int j = 0; j < m; j++) {
            SgNode c;
            c.kind = CELLS;
            const int q = pick_node(true);
            if (q >= 0)
              c.parents.push_back(q);
            c.a = std::min(pop.ncell, at + (int)g.draw(3));
            c.b = std::min(pop.ncell, c.a + (int)g.draw(1 + pop.ncell));
            at = c.b;
            c.s = with_parent(
                q, [&](auto w) { return particle_sub_group(w, c.a, c.b); });
            // a whole group parent is refused by the union
            if (m > 1 && c.s->is_entire_particle_group()) {
              c.kind = MASK_IDX;
              c.salt = 0;
              c.num = c.den = 1;
              c.s = with_parent(q, [&](auto w) { return make_mask(w, c); });
            }
            u.parents.push_back((int)nodes.size());
            add_node(c);
          }
        } else if (how == 2) { // truncate and discard of one parent
          SgNode c, d;
          c.parents = d.parents = n.parents;
          c.kind = TRUNC;
          d.kind = DISC;
          c.a = (int)g.size(0, 20);
          d.a = c.a + (int)g.draw(3);
          c.s = with_parent(
              p, [&](auto q) { return particle_sub_group_truncate(q, c.a); });
          d.s = with_parent(
              p, [&](auto q) { return particle_sub_group_discard(q, d.a); });
          u.parents.push_back((int)nodes.size());
          add_node(c);
          u.parents.push_back((int)nodes.size());
          add_node(d);
          if (g.boolean())
            std::swap(u.parents[0], u.parents[1]);
        } else { // a single one
          if (p < 0)
            return;
          u.parents = {p};
        }
        for (int j : u.parents)
          ps.push_back(nodes[j].s);
        u.s = particle_sub_group_disjoint_union(ps);
        add_node(u);
      }
      return;
    }
    const int k = (int)g.draw(10);
    if (k == 6) {
      n.kind = p < 0 ? WHOLE : COPY;
      n.s = with_parent(p, [&](auto q) { return particle_sub_group(q); });
    } else if (k == 7 || k == 8) {
      n.kind = CELLS;
      if (k == 7) {
        n.a = (int)(g.draw(1000) % pop.ncell);
        n.b = n.a + 1;
        n.s = with_parent(p, [&](auto q) { return particle_sub_group(q, n.a); });
      } else {
        n.a = (int)(g.draw(1000) % pop.ncell);
        n.b = n.a + (int)(g.draw(1000) % (pop.ncell - n.a + 1));
        if (g.chance(1, 5))
          n.b = n.a;
        n.s = with_parent(
            p, [&](auto q) { return particle_sub_group(q, n.a, n.b); });
      }
    } else {
      n.kind = k == 9 ? MASK_FX : k;
      if (n.kind == MASK_FX && !have_x)
        n.kind = MASK_F;
      n.salt = g.seed32();
      n.den = 1 + (int)g.draw(4);
      n.num = (int)g.draw(n.den + 1);
      n.thr = g.pick<REAL>({0.0, -500.0, 500.0, -2000.0, 2000.0});
      n.scan = g.chance(1, 3);
      n.s = with_parent(p, [&](auto q) { return make_mask(q, n); });
    }
    add_node(n);
  }

  // ---- observation ---------------------------------------------------------
  IdSet observe(int i, int how, const std::vector<SgRow> &rows) {
    auto &n = nodes[i];
    IdSet out;
    auto put = [&](INT id, const char *w) {
      g.ck(out.insert(id).second, desc(i), ": particle ", id,
           " appears twice in ", w);
    };
    auto counts = [&]() {
      const INT tot = n.s->get_npart_local();
      INT sum = 0;
      std::map<INT, INT> per;
      for (auto &p : rows)
        if (out.count(p.id))
          per[p.cell]++;
      for (int c = 0; c < pop.ncell; c++) {
        const INT k = n.s->get_npart_cell(c);
        sum += k;
        g.ck(k == per[c], desc(i), ": get_npart_cell(", c, ") is ", k,
             " but the sub group holds ", per[c], " particles there");
      }
      g.ck(tot == sum && tot == (INT)out.size(), desc(i),
           ": get_npart_local() is ", tot, ", the cells sum to ", sum,
           " and ", out.size(), " particles were seen");
    };
    if (how == 3 && !n.s->is_entire_particle_group()) {
      std::vector<INT> cells, layers;
      n.s->get_cells_layers(cells, layers);
      std::map<std::pair<INT, INT>, INT> at;
      for (auto &p : rows)
        at[{p.cell, p.layer}] = p.id;
      for (std::size_t j = 0; j < cells.size(); j++) {
        auto it = at.find({cells[j], layers[j]});
        if (g.ck(it != at.end(), desc(i), ": no particle at cell ", cells[j],
                 " layer ", layers[j]))
          put(it->second, "get_cells_layers");
      }
    } else if (how == 1) {
      std::vector<INT> cells, layers;
      for (int c = 0; c < pop.ncell; c++) {
        const INT k = n.s->get_npart_cell(c);
        for (INT l = 0; l < k; l++) {
          cells.push_back(c);
          layers.push_back(l);
        }
      }
      auto ps = n.s->get_particles(cells, layers);
      for (std::size_t j = 0; j < cells.size(); j++)
        put(ps->at(Sym<INT>("ID"), j, 0), "get_particles");
    } else if (how == 2) { // copied into another group
      auto bs = Pop::base_spec(pop.cm.ndim);
      auto B = std::make_shared<ParticleGroup>(pop.domain, bs, target());
      B->add_particles_local(n.s);
      for (int c = 0; c < pop.ncell; c++) {
        const INT k = B->get_npart_cell(c);
        if (!k)
          continue;
        auto ids = B->get_cell(Sym<INT>("ID"), c);
        for (INT l = 0; l < k; l++)
          put(ids->at(l, 0), "the copy");
      }
    } else {
      const INT tk = token += 16;
      particle_loop(
          pop.A, [=](auto N) { N.at(0) = 0; }, Access::write(Sym<INT>("N")))
          ->execute();
      auto body = [=](auto N) { N.at(0) = (N.at(0) >= tk ? N.at(0) : tk) + 1; };
      auto loop = particle_loop(n.s, body, Access::write(Sym<INT>("N")));
      if (how == 4) // cell by cell
        for (int c = 0; c < pop.ncell; c++)
          loop->execute(c);
      else
        loop->execute();
      auto v = read_dat<INT>(pop, "N");
      for (std::size_t j = 0; j < v.size(); j++)
        if (v[j][0] >= tk) {
          put(pop.parts[j].id, "a loop");
          g.ck(v[j][0] == tk + 1, desc(i), ": particle ", pop.parts[j].id,
               " was visited ", v[j][0] - tk, " times");
        }
    }
    counts();
    return out;
  }

  std::map<int, IdSet> seen; // verified sets in the present quiet period

  // The set the node denotes now; checks it against its definition.
  IdSet verify(int i, const std::vector<SgRow> &rows, bool draws) {
    auto it = seen.find(i);
    if (it != seen.end())
      return it->second;
    auto &n = nodes[i];
    const int how = draws ? (int)g.draw(5) : 0;
    IdSet got = observe(i, how, rows);
    if (n.is_static) {
      expect(i, got, n.frozen, "its original selection");
      seen[i] = got;
      return got;
    }
    IdSet par;
    std::vector<IdSet> pars;
    if (n.parents.empty())
      for (auto &p : rows)
        par.insert(p.id);
    for (int q : n.parents) {
      pars.push_back(verify(q, rows, false));
      if (n.kind == UNION)
        for (auto id : pars.back())
          g.ck(par.insert(id).second, "harness: union parents overlap");
      else
        par = pars.back();
    }
    std::map<INT, INT> npar, ngot;
    for (auto &p : rows) {
      if (par.count(p.id))
        npar[p.cell]++;
      if (got.count(p.id))
        ngot[p.cell]++;
    }
    IdSet want;
    if (n.kind == TRUNC || n.kind == DISC) {
      for (auto id : got)
        g.ck(par.count(id), desc(i), ": particle ", id, " is not in the parent");
      for (int c = 0; c < pop.ncell; c++) {
        const INT first = std::min<INT>(n.a, npar[c]);
        const INT k = n.kind == TRUNC ? first : npar[c] - first;
        g.ck(ngot[c] == k, desc(i), ": ", ngot[c], " particles in cell ", c,
             " expected ", k, " as the parent has ", npar[c]);
      }
      // the complementary node of the same parent
      for (int j = 0; j < (int)nodes.size(); j++) {
        auto &m = nodes[j];
        if (m.dropped || m.is_static || m.a != n.a || m.parents != n.parents ||
            m.kind != (n.kind == TRUNC ? DISC : TRUNC) || !seen.count(j))
          continue;
        IdSet both = got;
        for (auto id : seen[j])
          g.ck(both.insert(id).second, "particle ", id, " is both in ", desc(i),
               " and in ", desc(j));
        expect(i, both, par, "with its complement the parent");
      }
      if (n.parents.empty() && !g.failed) // the first n layers of the storage
        for (auto &p : rows)
          g.ck(got.count(p.id) == ((p.layer < n.a) == (n.kind == TRUNC)),
               desc(i), ": particle ", p.id, " in layer ", p.layer,
               got.count(p.id) ? " is in" : " is not in");
      seen[i] = got;
      return got;
    }
    for (auto &p : rows) {
      if (!par.count(p.id))
        continue;
      bool in = true;
      if (n.kind <= MASK_FR)
        in = pred(n, p, npar[p.cell]);
      else if (n.kind == CELLS)
        in = p.cell >= n.a && p.cell < n.b;
      else if (n.kind == PART)
        in = p.f0 == n.a;
      if (in)
        want.insert(p.id);
    }
    expect(i, got, want, "its definition");
    seen[i] = got;
    if (!got.empty() && got.size() < rows.size()) {
      used++;
      if (changed)
        used_after_change++;
    }
    return got;
  }
  void expect(int i, const IdSet &got, const IdSet &want, const char *what) {
    if (g.failed)
      return;
    for (auto id : got)
      if (!g.ck(want.count(id), desc(i), ": particle ", id,
                " is in the sub group but not in ", what, " (", got.size(),
                " particles, expected ", want.size(), ")"))
        return;
    for (auto id : want)
      if (!g.ck(got.count(id), desc(i), ": particle ", id,
                " is missing from the sub group but in ", what, " (",
                got.size(), " particles, expected ", want.size(), ")"))
        return;
  }

  void use(int i, bool draws = true) {
    auto rows = data();
    verify(i, rows, draws);
    g.sync();
  }

  // ---- changes ---------------------------------------------------------------
  void data_change() {
    seen.clear();
    changed = true;
  }
  // Around an operation that may change the structure.
  template <typename F> void structural(F f) {
    f();
    data_change();
    auto now = layout();
    for (int i = 0; i < (int)nodes.size(); i++) {
      auto &n = nodes[i];
      if (n.dropped || !n.is_static)
        continue;
      n.stale_structure = true;
      if (now != n.layout)
        g.ck(!n.s->is_valid(), desc(i),
             ": the structure of the group changed but the static sub group "
             "still reports itself valid");
    }
    g.sync();
  }

  void write_values() {
    const int what = (int)g.draw(9);
    const uint64_t salt = g.seed32();
    const uint64_t den = 1 + g.draw(4);
    const int p = pick_node(true);
    const int range = 1 + (int)g.draw(6);
    g.note("write ", what, " over ", p < 0 ? std::string("the group") : desc(p));
    auto kf = [=](auto ID, auto F) {
      const uint64_t h = pbt::hash(salt, (uint64_t)ID.at(0));
      if (h % den == 0) {
        F.at(0) = (INT)((h >> 8) % range) - (range > 4 ? 1 : 0);
        F.at(1) = (INT)((h >> 20) % 7);
      }
    };
    auto kr = [=](auto ID, auto R) {
      const uint64_t h = pbt::hash(salt, (uint64_t)ID.at(0));
      if (h % den == 0)
        R.at(0) = (REAL)((h >> 8) % 2048) - 1024.0;
    };
    auto kx = [=](auto ID, auto X) {
      const uint64_t h = pbt::hash(salt, (uint64_t)ID.at(0));
      if (h % den == 0)
        X.at(0) = (INT)((h >> 8) % 5);
    };
    if (what <= 2) {
      with_parent(p, [&](auto q) {
        particle_loop(q, kf, Access::read(Sym<INT>("ID")),
                      Access::write(Sym<INT>("F")))
            ->execute();
        return 0;
      });
    } else if (what == 3) {
      with_parent(p, [&](auto q) {
        particle_loop(q, kr, Access::read(Sym<INT>("ID")),
                      Access::write(Sym<REAL>("R")))
            ->execute();
        return 0;
      });
    } else if (what == 4 && have_x) {
      with_parent(p, [&](auto q) {
        particle_loop(q, kx, Access::read(Sym<INT>("ID")),
                      Access::write(Sym<INT>("X")))
            ->execute();
        return 0;
      });
    } else if (what == 5) { // a loop over a property
      particle_loop(pop.A->get_dat(Sym<INT>("ID")), kf,
                    Access::read(pop.A->get_dat(Sym<INT>("ID"))),
                    Access::write(pop.A->get_dat(Sym<INT>("F"))))
          ->execute();
    } else if (what == 6) { // through a symbol vector
      auto sv = std::make_shared<SymVector<INT>>(
          pop.A, std::vector<Sym<INT>>{Sym<INT>("F")});
      with_parent(p, [&](auto q) {
        particle_loop(
            q,
            [=](auto ID, auto V) {
              const uint64_t h = pbt::hash(salt, (uint64_t)ID.at(0));
              if (h % den == 0)
                V.at(0, 0) = (INT)((h >> 8) % range);
            },
            Access::read(Sym<INT>("ID")), Access::write(sv))
            ->execute();
        return 0;
      });
    } else { // host writes to one cell
      const int c = (int)(g.draw(1000) % pop.ncell);
      const INT k = pop.A->get_npart_cell(c);
      const int how = (int)g.draw(5);
      auto put = [&](auto dat, auto val) {
        auto &cell_dat = dat->cell_dat;
        if (how == 0 || how == 1) {
          auto cd = cell_dat.get_cell(c);
          for (INT l = 0; l < k; l++)
            cd->at((int)l, 0) = val(l);
          if (how == 0)
            cell_dat.set_cell(c, cd);
          else {
            EventStack es;
            cell_dat.set_cell_async(c, *cd, es);
            es.wait();
          }
        } else if (how == 2) {
          for (INT l = 0; l < k; l++)
            cell_dat.set_value(c, (int)l, 0, val(l));
        } else if (how == 3) { // direct access
          auto d = Access::direct_get(Access::write(dat));
          const INT kk = k;
          const int cc = c;
          target()->queue
              .parallel_for(sycl::range<1>(kk),
                            [=](sycl::id<1> l) { d[cc][0][l] = val((INT)l); })
              .wait_and_throw();
          Access::direct_restore(Access::write(dat), d);
          g.ck(d == nullptr, "direct_restore keeps the pointer");
          auto r = Access::direct_get(Access::read(dat));
          BufferDevice<int> same(target(), std::vector<int>{1});
          int *s = same.ptr;
          target()->queue
              .parallel_for(sycl::range<1>(kk),
                            [=](sycl::id<1> l) {
                              if (!(r[cc][0][l] == val((INT)l)))
                                *s = 0;
                            })
              .wait_and_throw();
          Access::direct_restore(Access::read(dat), r);
          g.ck(r == nullptr && same.get().at(0) == 1,
               "direct read access to written values");
        } else {
          auto d = cell_dat.device_ptr();
          const INT kk = k;
          const int cc = c;
          target()->queue
              .parallel_for(sycl::range<1>(kk),
                            [=](sycl::id<1> l) { d[cc][0][l] = val((INT)l); })
              .wait_and_throw();
        }
      };
      if (what == 7 && k > 0)
        put(pop.A->get_dat(Sym<INT>("F")), [=](INT l) {
          return (INT)(pbt::hash(salt, l) % (uint64_t)range);
        });
      else if (k > 0)
        put(pop.A->get_dat(Sym<REAL>("R")), [=](INT l) {
          return (REAL)(pbt::hash(salt, l) % 2048) - 1024.0;
        });
    }
    data_change();
  }

  void move(uint64_t salt) {
    // positions are written for particles outside of the domain, others by mask
    const int nd = pop.cm.ndim;
    const REAL L0 = pop.cm.L[0], L1 = pop.cm.L[1], L2 = pop.cm.L[2];
    structural([&]() {
      particle_loop(
          pop.A,
          [=](auto ID, auto P) {
            const REAL L[3] = {L0, L1, L2};
            bool out = false;
            for (int d = 0; d < nd; d++)
              out = out || !(P.at(d) >= 0.0 && P.at(d) < L[d]);
            const uint64_t h = pbt::hash(salt, (uint64_t)ID.at(0));
            if (out || h % 3 == 0)
              for (int d = 0; d < nd; d++)
                P.at(d) =
                    L[d] * 0.999 *
                    ((REAL)(pbt::hash(h, d) >> 12) * 0x1p-52);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("P")))
          ->execute();
      pop.A->hybrid_move();
    });
    dirty_p = false;
    if (g.chance(1, 3))
      for (int k = (int)g.draw(3); k > 0; k--)
        use_random(); // between the two moves
    structural([&]() { pop.A->cell_move(); });
  }

  void use_random() {
    const int i = pick_node(false);
    if (i >= 0) {
      g.note("use ", desc(i));
      use(i);
    }
  }

  void set_static(bool to) {
    const int n = (int)nodes.size();
    if (!n)
      return;
    const int i = (int)g.draw(n);
    auto &v = nodes[i];
    if (v.dropped || v.kind == PART)
      return;
    if (to) {
      if (v.is_static || !all_usable(i))
        return;
      g.note("make static ", desc(i));
      const bool before = g.boolean();
      if (before)
        use(i);
      v.s->static_status(true);
      // what it denoted at this moment, verified as a dynamic sub group first
      seen.erase(i);
      auto rows = data();
      v.frozen = verify(i, rows, true);
      v.is_static = true;
      v.stale_structure = false;
      v.layout = layout();
      seen.erase(i);
      g.ck(v.s->static_status() && v.s->is_valid(), desc(i),
           ": not valid directly after it became static");
    } else {
      if (!v.is_static)
        return;
      if (g.chance(1, 3)) { // explicit re-creation of a static sub group
        for (int p : v.parents)
          if (!all_usable(p))
            return;
        if (!have_x && needs_x(i))
          return;
        g.note("re-create ", desc(i));
        v.s->create();
        seen.clear();
        v.is_static = false; // verified against its definition
        auto rows = data();
        v.frozen = verify(i, rows, true);
        v.is_static = true;
        v.stale_structure = false;
        v.layout = layout();
        seen.clear();
        g.ck(v.s->is_valid(), desc(i), ": not valid after it was re-created");
        g.sync();
        return;
      }
      g.note("make dynamic ", desc(i));
      v.s->static_status(false);
      v.is_static = false;
      seen.clear();
      g.ck(v.s->is_valid(), "a dynamic sub group must be valid");
    }
    g.sync();
  }

  void step() {
    const int op = g.weighted({6, 9, 8, 2, 2, 2, 2, 3, 3,
                               derived ? 3 : 1, mapper ? 2 : 0});
    switch (op) {
    case 0:
      if (nodes.size() < cap)
        create_node();
      else
        use_random();
      break;
    case 1:
      use_random();
      break;
    case 2:
      write_values();
      break;
    case 3: {
      auto occ = gen_occ(g, pop.ncell, 12);
      const uint64_t salt = g.seed32();
      const int how = (int)g.draw(4);
      g.note("add ", np::str(occ),
             how == 0   ? ""
             : how == 1 ? " from a group"
             : how == 2 ? " from a sub group"
                        : " from a product matrix");
      structural([&]() { add_particles(occ, salt, how); });
      dirty_p = true;
      break;
    }
    case 4: {
      const int how = (int)g.draw(5);
      if (how == 0) {
        g.note("clear");
        structural([&]() { pop.A->clear(); });
      } else if (how <= 2) {
        const uint64_t salt = g.seed32();
        const uint64_t den = 1 + g.draw(5);
        std::vector<INT> cells, layers;
        pop.refresh();
        for (auto &p : pop.parts)
          if (pbt::hash(salt, p.id) % den == 0) {
            cells.push_back(p.cell);
            layers.push_back(p.layer);
          }
        g.note("remove ", cells.size(), " by cell and layer");
        structural([&]() { pop.A->remove_particles(cells.size(), cells, layers); });
      } else
        remove_sub();
      break;
    }
    case 5:
      if (!mapper) { // new cells
        const uint64_t salt = g.seed32();
        const uint64_t den = 1 + g.draw(4);
        const int nc = pop.ncell;
        const bool use_between = g.chance(1, 3);
        particle_loop(
            pop.A,
            [=](auto ID, auto C) {
              const uint64_t h = pbt::hash(salt, (uint64_t)ID.at(0));
              if (h % den == 0)
                C.at(0) = (INT)((h >> 8) % nc);
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
            ->execute();
        g.note("cell move 1/", den);
        data_change();
        if (use_between)
          use_random();
        structural([&]() { pop.A->cell_move(); });
      }
      break;
    case 6:
      replace_x();
      break;
    case 7:
      set_static(true);
      break;
    case 8:
      set_static(false);
      break;
    case 9: {
      if (nodes.empty())
        break;
      const int i = (int)g.draw(nodes.size());
      if (nodes[i].dropped)
        break;
      if (nodes[i].has_children)
        break;
      g.note("drop ", desc(i));
      nodes[i].dropped = true;
      nodes[i].s = nullptr;
      seen.erase(i);
      break;
    }
    default:
      g.note("hybrid and cell move");
      move(g.seed32());
    }
    g.sync();
  }

  void add_particles(const std::vector<int> &occ, uint64_t salt, int how) {
    // Pop::add needs the current property list
    ParticleSpec spec;
    for (auto p : pop.spec.properties_real)
      spec.push(p);
    for (auto p : pop.spec.properties_int)
      if (have_x || p.name != "X")
        spec.push(p);
    auto keep = pop.spec;
    pop.spec = spec;
    if (how == 0)
      pop.add(occ, salt, 200);
    else {
      std::vector<INT> cells;
      for (int c = 0; c < (int)occ.size(); c++)
        for (int l = 0; l < occ[c] && (int)cells.size() < 200; l++)
          cells.push_back(c);
      auto ps = std::make_shared<ParticleSet>((int)cells.size(), spec);
      for (int i = 0; i < (int)cells.size(); i++) {
        const INT id = 1 + pop.next + i + (INT)rank() * 1000000;
        for (auto &p : spec.properties_real)
          for (int k = 0; k < p.ncomp; k++)
            ps->at(p.sym, i, k) = Pop::init_r(id, p.name, k);
        for (auto &p : spec.properties_int)
          for (int k = 0; k < p.ncomp; k++)
            ps->at(p.sym, i, k) = Pop::init_i(id, p.name, k);
        ps->at(Sym<INT>("ID"), i, 0) = id;
        ps->at(Sym<INT>("CELL_ID"), i, 0) = cells[i];
      }
      pop.next += (INT)cells.size();
      if (how == 3) {
        auto pm = product_matrix(target(), product_matrix_spec(spec));
        pm->reset((int)cells.size());
        pm->set(ps);
        pop.A->add_particles_local(pm);
      } else {
        auto B = std::make_shared<ParticleGroup>(pop.domain, spec, target());
        B->add_particles_local(ps);
        if (how == 1)
          pop.A->add_particles_local(B);
        else
          pop.A->add_particles_local(particle_sub_group(
              B,
              [=](auto ID) {
                return pbt::hash(salt, (uint64_t)ID.at(0)) % 3 != 0;
              },
              Access::read(Sym<INT>("ID"))));
      }
      pop.refresh();
    }
    pop.spec = keep;
  }

  void remove_sub() {
    const int i = pick_node(false);
    if (i < 0)
      return;
    g.note("remove the particles of ", desc(i));
    auto rows = data();
    IdSet want;
    const bool known = g.boolean();
    if (known)
      want = verify(i, rows, false);
    const INT before = (INT)rows.size();
    structural([&]() { pop.A->remove_particles(nodes[i].s); });
    auto now = layout();
    if (known) {
      g.ck((INT)now.size() + (INT)want.size() == before, desc(i), ": removal of ",
           want.size(), " particles left ", now.size(), " of ", before);
      for (auto id : want)
        g.ck(!now.count(id), desc(i), ": particle ", id, " was not removed");
    } else if (!nodes[i].is_static && usable(i)) {
      // a filter on the data alone is empty once its particles are gone
      bool data_only = true;
      for (int j = i; data_only;) {
        auto &n = nodes[j];
        if (!(n.kind == MASK_F || n.kind == MASK_R || n.kind == MASK_FX ||
              n.kind == MASK_FR || n.kind == CELLS || n.kind == COPY ||
              n.kind == WHOLE || n.kind == PART) ||
            (j != i && n.is_static))
          data_only = false;
        if (n.parents.empty())
          break;
        j = n.parents[0];
      }
      if (data_only)
        g.ck(nodes[i].s->get_npart_local() == 0, desc(i),
             ": not empty after its particles were removed");
    }
    g.sync();
  }

  void replace_x() {
    const int between = (int)g.draw(3);
    const int writes = (int)g.draw(4);
    g.note("replace property X, ", between, " uses in between, ", writes,
           " writes");
    pop.A->remove_particle_dat(Sym<INT>("X"));
    have_x = false;
    data_change();
    for (int k = 0; k < between; k++)
      use_random();
    pop.A->add_particle_dat(Sym<INT>("X"), 1);
    have_x = true;
    const uint64_t salt = g.seed32();
    for (int k = 0; k < 1 + writes; k++)
      particle_loop(
          pop.A,
          [=](auto ID, auto X) {
            X.at(0) = (INT)(pbt::hash(salt, (uint64_t)ID.at(0), k) % 5);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("X")))
          ->execute();
    data_change();
  }

  void run() {
    init();
    const int nops = (int)g.integer(4, 40);
    cap = g.pick<std::size_t>({24, 2, 3, 4, 6});
    create_node();
    for (int k = 0; k < nops; k++)
      step();
    for (int i = 0; i < (int)nodes.size(); i++)
      if (!nodes[i].dropped && all_usable(i)) {
        seen.clear();
        use(i, false);
      }
    if (used_after_change)
      g.mark();
    nodes.clear();
    g.sync();
  }
};
} // namespace np
