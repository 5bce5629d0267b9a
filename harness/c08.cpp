// C08: ephemeral properties hold their values for the same particles while the
// sub group is valid and vanish with its invalidation.
#include "pop.hpp"
using namespace np;

namespace {

template <typename T> using Vals = std::map<INT, std::vector<T>>;
template <typename T> struct Eph {
  int ncomp;
  std::map<INT, std::vector<T>> v; // only for particles that were written
};

struct S {
  ParticleSubGroupSharedPtr s;
  std::set<std::string> deps, maybe;
  bool is_static{false}, alive{true};
  std::string name;
  std::map<std::string, Eph<REAL>> er;
  std::map<std::string, Eph<INT>> ei;
  template <typename T> auto &e() {
    if constexpr (std::is_same<T, REAL>::value)
      return er;
    else
      return ei;
  }
};

// Values as functions of the id, exact in both types.
template <typename T>
inline T val(uint64_t salt, INT id, int k) {
  return (T)(INT)(pbt::hash(salt, (uint64_t)id, k) % 1000003);
}

struct World {
  Gen &g;
  Pop pop;
  std::vector<S> subs;
  INT token{1};
  int checked{0}, dropped{0};
  World(Gen &g) : g(g) {}

  const std::vector<std::string> names_r{"EA", "EB", "V", "LONGER_NAME"};
  const std::vector<std::string> names_i{"EI", "EJ", "W"};
  template <typename T> const std::vector<std::string> &names() {
    if constexpr (std::is_same<T, REAL>::value)
      return names_r;
    else
      return names_i;
  }

  struct Mem {
    std::vector<std::size_t> idx; // into pop.parts
    std::map<INT, INT> loop_layer;
  };
  Mem members(S &s) {
    const INT tk = ++token;
    particle_loop(
        s.s,
        [=](auto I, auto N) {
          N.at(0) = tk;
          N.at(1) = I.loop_layer;
        },
        Access::read(ParticleLoopIndex{}), Access::write(Sym<INT>("N")))
        ->execute();
    pop.refresh();
    auto n = read_dat<INT>(pop, "N");
    Mem m;
    for (std::size_t i = 0; i < n.size(); i++)
      if (n[i][0] == tk) {
        m.idx.push_back(i);
        m.loop_layer[pop.parts[i].id] = n[i][1];
      }
    return m;
  }

  void make_sub() {
    S s;
    const int depth = (int)g.draw(3);
    s.is_static = g.chance(1, 3);
    for (int d = 0; d <= depth; d++) {
      const int k = (int)g.draw(8);
      const uint64_t salt = g.seed32(), den = 1 + g.draw(4);
      const int a = (int)g.size(0, 12);
      auto make = [&](auto p) -> ParticleSubGroupSharedPtr {
        switch (k) {
        case 0:
          s.deps.insert("F");
          s.name += "mask F ";
          return particle_sub_group(
              p,
              [=](auto F) {
                return pbt::hash(salt, (uint64_t)F.at(0)) % den == 0;
              },
              Access::read(Sym<INT>("F")));
        case 1:
          s.deps.insert("F");
          s.deps.insert("R");
          s.name += "mask F,R ";
          return particle_sub_group(
              p,
              [=](auto F, auto R) {
                return pbt::hash(salt, (uint64_t)F.at(0)) % den == 0 ||
                       R.at(0) < 0.0;
              },
              Access::read(Sym<INT>("F")), Access::read(Sym<REAL>("R")));
        case 2:
          s.name += "mask index ";
          return particle_sub_group(
              p,
              [=](auto I) {
                return pbt::hash(salt, (uint64_t)I.cell, (uint64_t)I.layer) %
                           den ==
                       0;
              },
              Access::read(ParticleLoopIndex{}));
        case 3:
          s.name += "cells ";
          return particle_sub_group(p, 0, std::min(pop.ncell, a + 1));
        case 4:
          s.name += "truncate ";
          return particle_sub_group_truncate(p, a);
        case 5:
          s.name += "discard ";
          return particle_sub_group_discard(p, a);
        case 6:
          s.name += "partition ";
          s.deps.insert("F");
          return particle_group_partition(p, Sym<INT>("F"), 3).at(a % 3);
        default:
          s.name += "all ";
          return particle_sub_group(p);
        }
      };
      s.s = d == 0 ? make(pop.A) : make(s.s);
      if (k == 6 && d == depth)
        s.is_static = false;
    }
    if (s.is_static) {
      s.s->static_status(true);
      s.name += "static ";
    }
    g.note("sub group ", subs.size(), ": ", s.name);
    subs.push_back(s);
  }

  // Does the sub group exist in a usable form?
  bool ok(S &s) {
    int u = s.alive ? 1 : 0, v = 0;
    MPI_Allreduce(&u, &v, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    return v;
  }

  template <typename T> bool has(S &s, const std::string &n) {
    // ranks agree: existence is a function of the history
    return s.e<T>().count(n);
  }

  template <typename T> void add(S &s, const std::string &n) {
    if (has<T>(s, n)) {
      s.s->add_ephemeral_dat(Sym<T>(n), s.e<T>()[n].ncomp);
      g.note("add again ", n);
    } else {
      const bool ordinary = n == "V" || n == "W";
      const int nc = ordinary && g.boolean() ? (n == "V" ? 3 : 2)
                                             : (int)g.integer(1, 4);
      g.note("add ", n, " with ", nc, " to ", s.name);
      s.s->add_ephemeral_dat(Sym<T>(n), nc);
      s.e<T>()[n] = Eph<T>{nc, {}};
    }
    g.ck(s.s->contains_ephemeral_dat(Sym<T>(n)), "added property ", n,
         " does not exist in ", s.name);
  }

  std::pair<int, int> range() {
    if (!g.chance(1, 3))
      return {0, pop.ncell};
    const int a = (int)(g.draw(1000) % (pop.ncell + 1));
    return {a, a + (int)(g.draw(1000) % (pop.ncell - a + 1))};
  }

  template <typename T> void write(S &s, const std::string &n) {
    auto &e = s.e<T>()[n];
    const uint64_t salt = g.seed32();
    const int nc = e.ncomp;
    const int how = (int)g.draw(4);
    auto r = range();
    g.note("write ", n, " of ", s.name, " how ", how, " cells [", r.first, ",",
           r.second, ")");
    if (how == 3) { // on the host
      auto m = members(s);
      const int c = (int)(g.draw(1000) % pop.ncell);
      auto dat = s.s->get_ephemeral_dat(Sym<T>(n));
      auto cd = dat->cell_dat.get_cell(c);
      std::map<INT, INT> at;
      for (auto i : m.idx)
        if (pop.parts[i].cell == c) {
          const INT id = pop.parts[i].id, l = m.loop_layer[id];
          if (!g.ck(l < cd->nrow, n, ": row ", l, " of cell ", c, " missing"))
            return;
          for (int k = 0; k < nc; k++)
            cd->at((int)l, k) = val<T>(salt, id, k);
          e.v[id].resize(nc);
          for (int k = 0; k < nc; k++)
            e.v[id][k] = val<T>(salt, id, k);
        }
      if (cd->nrow > 0)
        dat->cell_dat.set_cell(c, cd);
      return;
    }
    ParticleLoopSharedPtr loop;
    if (how == 0)
      loop = particle_loop(
          s.s,
          [=](auto ID, auto E) {
            for (int k = 0; k < nc; k++)
              E.at_ephemeral(k) = val<T>(salt, ID.at(0), k);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<T>(n)));
    else {
      // a symbol vector of ordinary and ephemeral properties
      const std::string o = std::is_same<T, REAL>::value ? "RO" : "IO";
      std::vector<Sym<T>> syms{Sym<T>(o), Sym<T>(n)};
      auto sv = std::make_shared<SymVector<T>>(pop.A, syms);
      if (how == 1)
        loop = particle_loop(
            s.s,
            [=](auto ID, auto E) {
              for (int k = 0; k < nc; k++)
                E.at_ephemeral(1, k) = val<T>(salt, ID.at(0), k);
              E.at(0, 0) = val<T>(salt, ID.at(0), 77);
            },
            Access::read(Sym<INT>("ID")), Access::write(sv));
      else
        loop = particle_loop(
            s.s,
            [=](auto ID, auto I, auto E) {
              for (int k = 0; k < nc; k++)
                E.at_ephemeral(1, I, k) = val<T>(salt, ID.at(0), k);
              E.at(0, I, 0) = val<T>(salt, ID.at(0), 77);
            },
            Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
            Access::write(sv));
    }
    loop->execute(r.first, r.second);
    auto m = members(s);
    std::vector<std::vector<T>> o;
    if (how)
      o = read_dat<T>(pop, std::is_same<T, REAL>::value ? "RO" : "IO");
    for (auto i : m.idx) {
      const auto &p = pop.parts[i];
      if (p.cell < r.first || p.cell >= r.second)
        continue;
      auto &v = e.v[p.id];
      v.resize(nc);
      for (int k = 0; k < nc; k++)
        v[k] = val<T>(salt, p.id, k);
      if (how)
        g.ck(o[i][0] == val<T>(salt, p.id, 77), "ordinary property of particle ",
             p.id, " in a mixed symbol vector was not written");
    }
  }

  template <typename T> void check_values(S &s, const std::string &n) {
    auto &e = s.e<T>()[n];
    const int nc = e.ncomp;
    const int how = (int)g.draw(4);
    if (!g.ck(s.s->contains_ephemeral_dat(Sym<T>(n)), "property ", n, " of ",
              s.name, " vanished although the sub group is unchanged"))
      return;
    g.ck(s.s->get_ephemeral_dat(Sym<T>(n))->ncomp == nc, "components of ", n);
    std::map<INT, std::vector<T>> got;
    const std::string o = std::is_same<T, REAL>::value ? "RO" : "IO";
    auto m = members(s);
    if (how == 0) {
      std::map<INT, std::map<INT, INT>> at;
      auto dat = s.s->get_ephemeral_dat(Sym<T>(n));
      std::map<INT, CellData<T>> cells;
      for (int c = 0; c < pop.ncell; c++)
        cells[c] = dat->cell_dat.get_cell(c);
      for (auto i : m.idx) {
        const auto &p = pop.parts[i];
        const INT l = m.loop_layer[p.id];
        if (!g.ck(l < cells[p.cell]->nrow, n, " of ", s.name, " has ",
                  cells[p.cell]->nrow, " rows in cell ", p.cell))
          return;
        for (int k = 0; k < nc; k++)
          got[p.id].push_back(cells[p.cell]->at((int)l, k));
      }
    } else {
      if (how == 1)
        particle_loop(
            s.s,
            [=](auto E, auto O) {
              for (int k = 0; k < nc; k++)
                O.at(k) = E.at_ephemeral(k);
            },
            Access::read(Sym<T>(n)), Access::write(Sym<T>(o)))
            ->execute();
      else if (how == 2)
        particle_loop(
            s.s,
            [=](auto I, auto E, auto O) {
              for (int k = 0; k < nc; k++)
                O.at(k) = E.at_ephemeral(0, I, k);
            },
            Access::read(ParticleLoopIndex{}),
            Access::read(std::make_shared<SymVector<T>>(
                pop.A, std::vector<Sym<T>>{Sym<T>(n)})),
            Access::write(Sym<T>(o)))
            ->execute();
      else
        particle_loop(
            s.s,
            [=](auto E, auto O) {
              for (int k = 0; k < nc; k++)
                O.at(k) = E.at_ephemeral(1, k);
            },
            Access::read(std::make_shared<SymVector<T>>(
                pop.A, std::vector<Sym<T>>{
                           Sym<T>(std::is_same<T, REAL>::value ? "R" : "F"),
                           Sym<T>(n)})),
            Access::write(Sym<T>(o)))
            ->execute();
      auto v = read_dat<T>(pop, o);
      for (auto i : m.idx)
        got[pop.parts[i].id] = std::vector<T>(v[i].begin(), v[i].begin() + nc);
    }
    for (auto &w : e.v) {
      auto it = got.find(w.first);
      if (!g.ck(it != got.end(), "particle ", w.first, " left ", s.name,
                " although ", n, " still exists"))
        return;
      if (!g.ck(same(it->second, w.second), n, " of ", s.name, ", particle ",
                w.first, ": ", np::str(it->second), ", expected ",
                np::str(w.second), " (read method ", how, ")"))
        return;
      checked++;
    }
  }

  template <typename T> void copy(S &s, const std::string &n) {
    auto &e = s.e<T>()[n];
    const std::string o = std::is_same<T, REAL>::value ? "V" : "W";
    if (e.ncomp != pop.A->get_dat(Sym<T>(o))->ncomp)
      return;
    const bool out = g.boolean();
    pop.refresh();
    auto before = read_dat<T>(pop, o);
    g.note(out ? "copy out " : "copy in ", n, " of ", s.name);
    if (out)
      copy_ephemeral_dat_to_particle_dat(s.s, Sym<T>(n), Sym<T>(o));
    else
      copy_particle_dat_to_ephemeral_dat(s.s, Sym<T>(o), Sym<T>(n));
    auto m = members(s);
    std::set<std::size_t> in(m.idx.begin(), m.idx.end());
    auto after = read_dat<T>(pop, o);
    for (std::size_t i = 0; i < before.size(); i++) {
      const INT id = pop.parts[i].id;
      if (!out && in.count(i))
        e.v[id] = before[i];
      if (out && in.count(i)) {
        auto it = e.v.find(id);
        if (it != e.v.end())
          g.ck(same(after[i], it->second), "copy of ", n, " gave particle ", id,
               " ", np::str(after[i]), ", expected ", np::str(it->second));
      } else
        g.ck(same(after[i], before[i]), "copy of ", n, " changed ", o,
             " of particle ", id, " which is not written by it");
    }
  }

  void check_ordinary(const std::vector<std::vector<REAL>> &v,
                      const std::vector<std::vector<INT>> &w) {
    auto v1 = read_dat<REAL>(pop, "V");
    auto w1 = read_dat<INT>(pop, "W");
    g.ck(v == v1, "ordinary property V changed");
    g.ck(w == w1, "ordinary property W changed");
  }

  std::map<INT, std::pair<INT, INT>> layout() {
    pop.refresh();
    std::map<INT, std::pair<INT, INT>> m;
    for (auto &p : pop.parts)
      m[p.id] = {p.cell, p.layer};
    return m;
  }

  template <typename T> void after_change(S &s, bool must, bool may) {
    std::set<std::string> gone;
    for (auto &e : s.e<T>()) {
      const bool c = s.s->contains_ephemeral_dat(Sym<T>(e.first));
      if (must)
        g.ck(!c, "property ", e.first, " of ", s.name,
             " still exists after the sub group was invalidated");
      if (!may)
        g.ck(c, "property ", e.first, " of ", s.name,
             " does not exist although nothing the sub group depends on changed");
      if (!c)
        gone.insert(e.first);
    }
    // whether an ambiguous change drops the property may depend on the rank
    for (auto &n : gone)
      s.e<T>().erase(n);
    if (!gone.empty())
      dropped++;
  }
  // A change of property `prop` by a loop, or of the structure (prop empty).
  void changed(const std::string &prop, bool layout_changed, bool written) {
    for (auto &s : subs) {
      if (!s.alive)
        continue;
      bool must, may;
      if (prop.empty()) {
        must = layout_changed;
        may = true;
      } else {
        const bool dep = s.deps.count(prop);
        may = dep && !s.is_static;
        must = may && written;
      }
      int a = must ? 1 : 0, b = 0;
      MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      after_change<REAL>(s, must, may);
      after_change<INT>(s, must, may);
      if (b || prop.empty()) { // keep the ranks in step: start afresh
        for (auto &e : s.er)
          if (s.s->contains_ephemeral_dat(Sym<REAL>(e.first)))
            s.s->remove_ephemeral_dat(Sym<REAL>(e.first));
        for (auto &e : s.ei)
          if (s.s->contains_ephemeral_dat(Sym<INT>(e.first)))
            s.s->remove_ephemeral_dat(Sym<INT>(e.first));
        s.er.clear();
        s.ei.clear();
      } else if (may) { // written by no particle anywhere: same treatment
        for (auto &e : s.er)
          if (s.s->contains_ephemeral_dat(Sym<REAL>(e.first)))
            s.s->remove_ephemeral_dat(Sym<REAL>(e.first));
        for (auto &e : s.ei)
          if (s.s->contains_ephemeral_dat(Sym<INT>(e.first)))
            s.s->remove_ephemeral_dat(Sym<INT>(e.first));
        s.er.clear();
        s.ei.clear();
      }
      if (s.is_static && prop.empty())
        s.alive = false;
    }
  }

  void step() {
    const int op = g.weighted({6, 8, 8, 2, 4, 3, 3, 2});
    if (op <= 4) {
      const int i = (int)g.draw(subs.size());
      auto &s = subs[i];
      if (!ok(s))
        return;
      const bool real = g.boolean();
      const std::string n =
          real ? g.pick(names_r) : g.pick(names_i);
      const bool exists = real ? has<REAL>(s, n) : has<INT>(s, n);
      pop.refresh();
      auto v = read_dat<REAL>(pop, "V");
      auto w = read_dat<INT>(pop, "W");
      if (op == 0 || !exists) {
        real ? add<REAL>(s, n) : add<INT>(s, n);
        check_ordinary(v, w);
        real ? write<REAL>(s, n) : write<INT>(s, n);
        check_ordinary(v, w);
      } else if (op == 1) {
        real ? write<REAL>(s, n) : write<INT>(s, n);
        check_ordinary(v, w);
      } else if (op == 2) {
        real ? check_values<REAL>(s, n) : check_values<INT>(s, n);
        check_ordinary(v, w);
      } else if (op == 3) {
        g.note("remove ", n, " of ", s.name);
        if (real) {
          s.s->remove_ephemeral_dat(Sym<REAL>(n));
          s.er.erase(n);
          g.ck(!s.s->contains_ephemeral_dat(Sym<REAL>(n)), n, " not removed");
        } else {
          s.s->remove_ephemeral_dat(Sym<INT>(n));
          s.ei.erase(n);
          g.ck(!s.s->contains_ephemeral_dat(Sym<INT>(n)), n, " not removed");
        }
      } else
        real ? copy<REAL>(s, n) : copy<INT>(s, n);
    } else if (op == 5) { // write an ordinary property
      const std::string p = g.pick<std::string>({"F", "R", "V", "W"});
      const uint64_t salt = g.seed32();
      const int how = (int)g.draw(3);
      pop.refresh();
      const bool any = !pop.parts.empty();
      g.note("write ordinary ", p, " how ", how);
      auto wr = [&](auto sym) {
        using T = typename std::remove_reference<decltype(
            pop.A->get_cell(sym, 0)->at(0, 0))>::type;
        if (how == 0)
          particle_loop(
              pop.A,
              [=](auto ID, auto X) {
                X.at(0) = (T)(INT)(pbt::hash(salt, (uint64_t)ID.at(0)) % 4) -
                          (T)1;
              },
              Access::read(Sym<INT>("ID")), Access::write(sym))
              ->execute();
        else if (how == 1)
          particle_loop(
              pop.A,
              [=](auto ID, auto X) {
                X.at(0, 0) =
                    (T)(INT)(pbt::hash(salt, (uint64_t)ID.at(0)) % 4) - (T)1;
              },
              Access::read(Sym<INT>("ID")),
              Access::write(std::make_shared<SymVector<T>>(
                  pop.A, std::vector<Sym<T>>{sym})))
              ->execute();
        else {
          for (int c = 0; c < pop.ncell; c++)
            if (pop.A->get_npart_cell(c) > 0) {
              auto cd = pop.A->get_cell(sym, c);
              for (int l = 0; l < cd->nrow; l++)
                cd->at(l, 0) = (T)(INT)(pbt::hash(salt, c, l) % 4) - (T)1;
              pop.A->get_dat(sym)->cell_dat.set_cell(c, cd);
            }
        }
      };
      if (p == "F" || p == "W")
        wr(Sym<INT>(p));
      else
        wr(Sym<REAL>(p));
      changed(p, false, any);
    } else if (op == 6) { // structure
      const int how = (int)g.draw(4);
      auto before = layout();
      g.note("structural change ", how);
      if (how == 0)
        pop.add(gen_occ(g, pop.ncell, 6), g.seed32(), 100);
      else if (how == 1) {
        const uint64_t salt = g.seed32(), den = 1 + g.draw(3);
        auto rm = mask_on(pop.A, salt, 1, den);
        pop.A->remove_particles(rm);
      } else {
        const uint64_t salt = g.seed32(), den = 1 + g.draw(3);
        const int nc = pop.ncell;
        particle_loop(
            pop.A,
            [=](auto ID, auto C) {
              const uint64_t h = pbt::hash(salt, (uint64_t)ID.at(0));
              if (h % den == 0)
                C.at(0) = (INT)((h >> 8) % nc);
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
            ->execute();
        pop.A->cell_move();
      }
      auto after = layout();
      changed("", before != after, true);
    } else if (subs.size() < 5)
      make_sub();
    g.sync();
  }

  void run() {
    CartMesh::Opts mo;
    mo.max_stencil = 0;
    mo.max_subdiv = 1;
    mo.max_dim2 = 3;
    mo.max_dim3 = 2;
    pop.gen(g, mo,
            ParticleSpec{ParticleProp(Sym<REAL>("V"), 3),
                         ParticleProp(Sym<REAL>("R"), 1),
                         ParticleProp(Sym<REAL>("RO"), 4),
                         ParticleProp(Sym<INT>("W"), 2),
                         ParticleProp(Sym<INT>("F"), 1),
                         ParticleProp(Sym<INT>("IO"), 4),
                         ParticleProp(Sym<INT>("N"), 2)},
            30, false, 300);
    particle_loop(
        pop.A, [=](auto ID, auto F) { F.at(0) = ID.at(0) % 4; },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("F")))
        ->execute();
    const int ns = (int)g.integer(1, 3);
    for (int i = 0; i < ns; i++)
      make_sub();
    const int nops = (int)g.integer(3, 30);
    for (int i = 0; i < nops; i++)
      step();
    for (auto &s : subs) {
      if (!ok(s))
        continue;
      std::vector<std::string> nr, ni;
      for (auto &e : s.er)
        nr.push_back(e.first);
      for (auto &e : s.ei)
        ni.push_back(e.first);
      for (auto &n : nr)
        check_values<REAL>(s, n);
      for (auto &n : ni)
        check_values<INT>(s, n);
      g.sync();
    }
    if (checked)
      g.mark();
    if (dropped)
      g.label("with invalidation");
  }
};

void prop(Gen &g) {
  World w(g);
  w.run();
}
} // namespace
PBT_MAIN("C08", prop)
