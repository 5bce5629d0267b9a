// C03: every way of adding particles creates exactly the requested particles.
#include "np.hpp"
using namespace np;

namespace {
static constexpr int MAXP = 12;
struct Layout { // device-copyable description of a product layout
  int nreal{0}, nint{0};
  int cr[MAXP], ci[MAXP];   // components
  int tr[MAXP], ti[MAXP];   // value tags
  int cell_index{-1};       // index of CELL_ID among the INT properties
  int def[MAXP];            // int property left at its default on odd rows
};

// A particle as a flat list: cell, then every property in name order.
using Flat = std::vector<int64_t>;
inline int64_t bits(REAL x) {
  int64_t b;
  std::memcpy(&b, &x, 8);
  return b;
}
struct Pp {
  INT cell{0};
  std::map<std::string, std::vector<REAL>> r;
  std::map<std::string, std::vector<INT>> i;
  Flat flat() const {
    Flat f{cell};
    for (auto &v : r)
      for (auto x : v.second)
        f.push_back(bits(x));
    for (auto &v : i)
      for (auto x : v.second)
        f.push_back(x);
    return f;
  }
};
using Content = std::vector<Pp>;

Content content(Gen &g, ParticleGroupSharedPtr A) {
  Content c;
  for (auto &row : snapshot(g, A)) {
    Pp p;
    p.cell = row.cell;
    p.r = row.r;
    p.i = row.i;
    c.push_back(p);
  }
  return c;
}

std::string show(const Pp &p) {
  std::ostringstream o;
  o << "cell " << p.cell;
  for (auto &v : p.r)
    o << " " << v.first << "=" << np::str(v.second);
  for (auto &v : p.i)
    o << " " << v.first << "=" << np::str(v.second);
  return o.str();
}

void compare_content(Gen &g, const Content &got, const Content &want,
                     const std::string &when) {
  if (g.failed)
    return;
  std::multiset<Flat> a, b;
  for (auto &p : got)
    a.insert(p.flat());
  for (auto &p : want)
    b.insert(p.flat());
  if (a == b)
    return;
  for (auto &p : want)
    if (a.count(p.flat()) < b.count(p.flat())) {
      g.ck(false, when, ": expected particle is missing: ", show(p), " (group has ",
           got.size(), " particles, expected ", want.size(), ")");
      return;
    }
  for (auto &p : got)
    if (a.count(p.flat()) > b.count(p.flat())) {
      g.ck(false, when, ": unexpected particle: ", show(p), " (group has ",
           got.size(), " particles, expected ", want.size(), ")");
      return;
    }
}

struct Prop {
  std::string name;
  bool real;
  int ncomp;
};

void prop(Gen &g) {
  const int me = np::rank();
  std::vector<int> dims = {(int)g.integer(1, 3), (int)g.integer(1, 3)};
  if (np::nranks() > 1)
    dims[0] += np::nranks() - 1;
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 8}));
  set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 16}));
  MeshHolder mh;
  mh.mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, 2, dims, 1.0, (int)g.draw(2));
  auto domain = std::make_shared<Domain>(mh.mesh);
  const int ncell = mh.mesh->get_cell_count();

  // a pool of properties shared by both groups
  std::vector<Prop> pool;
  for (int k = 0; k < 4; k++)
    pool.push_back({"R" + std::to_string(k), true, (int)g.integer(1, 4)});
  for (int k = 0; k < 4; k++)
    pool.push_back({"I" + std::to_string(k), false, (int)g.integer(1, 3)});
  const bool cellname_first = g.boolean();
  const std::string CELL = cellname_first ? "CELL_ID" : "ZCELL"; // map order
  struct Grp {
    ParticleGroupSharedPtr p;
    std::vector<Prop> props;
    Content c;
    bool has(const std::string &n) const {
      for (auto &x : props)
        if (x.name == n)
          return true;
      return false;
    }
  };
  Grp G[2];
  for (int k = 0; k < 2; k++) {
    ParticleSpec spec;
    const bool late = g.boolean();
    auto base = [&]() {
      spec.push(ParticleProp(Sym<REAL>("P"), 2, true));
      spec.push(ParticleProp(Sym<INT>(CELL), 1, true));
    };
    if (!late)
      base();
    const uint64_t mask = g.draw(256) ^ 255;
    for (size_t x = 0; x < pool.size(); x++)
      if (mask >> x & 1) {
        if (pool[x].real)
          spec.push(ParticleProp(Sym<REAL>(pool[x].name), pool[x].ncomp));
        else
          spec.push(ParticleProp(Sym<INT>(pool[x].name), pool[x].ncomp));
        G[k].props.push_back(pool[x]);
      }
    if (late)
      base();
    G[k].props.push_back({"P", true, 2});
    G[k].props.push_back({CELL, false, 1});
    G[k].p = std::make_shared<ParticleGroup>(domain, spec, target());
  }
  // NESO_MPI_RANK is part of every group and moves with the rest
  for (int k = 0; k < 2; k++)
    G[k].props.push_back({"NESO_MPI_RANK", false, 2});
  g.note("dims ", dims[0], "x", dims[1], " cells ", ncell, " dst props ",
         G[0].props.size(), " src props ", G[1].props.size(), " cell dat ", CELL);

  auto zero_of = [&](const Grp &d) {
    Pp p;
    for (auto &x : d.props) {
      if (x.real)
        p.r[x.name] = std::vector<REAL>(x.ncomp, 0.0);
      else
        p.i[x.name] = std::vector<INT>(x.ncomp, 0);
    }
    return p;
  };
  int64_t uid = 1 + 1000000ll * me;
  int kinds = 0, added = 0;

  auto add_set = [&](Grp &d, int n, uint64_t salt, int partial) {
    ParticleSpec spec;
    std::vector<Prop> use;
    for (auto &x : pool)
      if (partial == 0 ? d.has(x.name)
                       : (pbt::hash(salt, x.name[0], x.name[1]) % 2 == 0)) {
        use.push_back(x);
      }
    use.push_back({"P", true, 2});
    use.push_back({CELL, false, 1});
    std::sort(use.begin(), use.end(), [&](auto &a, auto &b) {
      return pbt::hash(salt, a.name[0] + 7, a.name[1]) < pbt::hash(salt, b.name[0] + 7, b.name[1]);
    });
    for (auto &x : use) {
      if (x.real)
        spec.push(ParticleProp(Sym<REAL>(x.name), x.ncomp));
      else
        spec.push(ParticleProp(Sym<INT>(x.name), x.ncomp));
    }
    auto ps = std::make_shared<ParticleSet>(n, spec);
    for (int p = 0; p < n; p++) {
      Pp e = zero_of(d);
      const INT id = uid++;
      e.cell = pbt::hash(salt, id, 8) % ncell;
      int tag = 0;
      for (auto &x : use) {
        tag++;
        for (int c = 0; c < x.ncomp; c++) {
          if (x.real) {
            const REAL v = rval(id, tag, c, salt);
            ps->at(Sym<REAL>(x.name), p, c) = v;
            if (d.has(x.name))
              e.r[x.name][c] = v;
          } else {
            const INT v = x.name == CELL ? e.cell : ival(id, tag, c, salt);
            ps->at(Sym<INT>(x.name), p, c) = v;
            if (d.has(x.name))
              e.i[x.name][c] = v;
          }
        }
      }
      d.c.push_back(e);
    }
    d.p->add_particles_local(ps);
    added += n;
  };
  // particle p of group s as the value of property x of group d, else zero
  auto inherit = [&](Pp &e, const Grp &d, const Grp &s, const Pp &src,
                     const std::set<std::string> &skip) {
    for (auto &x : d.props) {
      if (skip.count(x.name) || !s.has(x.name))
        continue;
      if (x.real)
        e.r[x.name] = src.r.at(x.name);
      else
        e.i[x.name] = src.i.at(x.name);
    }
  };
  auto check = [&](const std::string &when) {
    for (int k = 0; k < 2; k++)
      compare_content(g, content(g, G[k].p), G[k].c,
                      when + (k ? " (source group)" : " (destination group)"));
    g.sync();
  };

  // the source needs an identity to tie its particles to computed values: R-like
  // hash of the first position component's bits.
  add_set(G[0], (int)g.size(0, 60), g.seed32(), 0);
  add_set(G[1], (int)g.size(0, 60), g.seed32(), 0);
  check("initial");

  auto make_spec = [&](const Grp &d, uint64_t salt, bool with_cell, bool with_pos,
                       Layout &L, std::vector<Prop> &order) {
    order.clear();
    for (auto &x : pool)
      if (d.has(x.name) && pbt::hash(salt, x.name[0], x.name[1], 1) % 2 == 0)
        order.push_back(x);
    if (with_cell)
      order.push_back({CELL, false, 1});
    if (with_pos)
      order.push_back({"P", true, 2});
    std::sort(order.begin(), order.end(), [&](auto &a, auto &b) {
      return pbt::hash(salt, a.name[0] + 9, a.name[1]) < pbt::hash(salt, b.name[0] + 9, b.name[1]);
    });
    ParticleSpec spec;
    for (auto &x : order) {
      if (x.real) {
        spec.push(ParticleProp(Sym<REAL>(x.name), x.ncomp));
        L.cr[L.nreal] = x.ncomp;
        L.tr[L.nreal++] = (int)(x.name[0] * 16 + x.name[1] % 16);
      } else {
        spec.push(ParticleProp(Sym<INT>(x.name), x.ncomp));
        if (x.name == CELL)
          L.cell_index = L.nint;
        L.ci[L.nint] = x.ncomp;
        L.def[L.nint] = x.name != CELL && pbt::hash(salt, x.name[0], x.name[1], 5) % 3 == 0;
        L.ti[L.nint++] = (int)(x.name[0] * 16 + x.name[1] % 16);
      }
    }
    return product_matrix_spec(spec);
  };

  const int nops = (int)g.integer(1, 7);
  for (int op = 0; op < nops; op++) {
    const int kind = g.weighted({3, 5, 6, 3, 4, 2, 2, 1});
    const uint64_t salt = g.seed32();
    std::ostringstream w;
    w << "op " << op << " ";
    Grp &D = G[0], &S = G[1];
    if (kind == 0) {
      const int n = (int)g.size(0, 100);
      const int k = (int)g.draw(2);
      add_set(G[k], n, salt, 1);
      w << "particle set n " << n << " into " << (k ? "source" : "destination");
      kinds++;
    } else if (kind == 1) { // product matrix filled by a loop over a group
      const bool with_cell = g.boolean(), with_pos = g.boolean();
      const int per = (int)g.integer(0, 3);
      const bool by_set = g.boolean();
      Layout L;
      std::vector<Prop> order;
      auto spec = make_spec(D, salt, with_cell, with_pos, L, order);
      std::map<std::string, INT> dflt;
      {
        int ii = 0;
        for (auto &x : order)
          if (!x.real) {
            if (L.def[ii]) {
              spec->set_default_value(Sym<INT>(x.name), x.ncomp - 1, 123 + ii);
              dflt[x.name] = 123 + ii;
            }
            ii++;
          }
      }
      auto pm = product_matrix(target(), spec);
      const int npar = (int)S.c.size();
      const int n = by_set ? per * 17 : npar * per;
      pm->reset(n);
      w << "product matrix rows " << n << (by_set ? " by set" : " by loop")
        << (with_cell ? " with cells" : "") << " props " << order.size();
      const uint64_t unc = ncell;
      const auto val_i = [=](INT row, int q, int c) {
        return q == L.cell_index ? (INT)(pbt::hash(row, salt, 6) % unc)
                                 : ival(row, L.ti[q], c, salt);
      };
      auto untouched = [=](INT row, int q) { return L.def[q] && row % 2 == 1; };
      // a row is tied to its index only
      if (by_set) {
        auto ps = std::make_shared<ParticleSet>(n, spec->particle_spec);
        for (int row = 0; row < n; row++) {
          int rr = 0, ii = 0;
          for (auto &x : order) {
            for (int c = 0; c < x.ncomp; c++) {
              if (x.real)
                ps->at(Sym<REAL>(x.name), row, c) = rval(row, L.tr[rr], c, salt);
              else
                ps->at(Sym<INT>(x.name), row, c) =
                    untouched(row, ii) ? (c == x.ncomp - 1 ? dflt[x.name] : 0) : val_i(row, ii, c);
            }
            (x.real ? rr : ii)++;
          }
        }
        pm->set(ps);
      } else {
        particle_loop(
            S.p,
            [=](auto index, auto PM) {
              const INT base = index.get_loop_linear_index();
              for (int k = 0; k < per; k++) {
                const INT row = base * per + k;
                for (int q = 0; q < L.nreal; q++)
                  for (int c = 0; c < L.cr[q]; c++)
                    PM.at_real(row, q, c) = rval(row, L.tr[q], c, salt);
                for (int q = 0; q < L.nint; q++)
                  if (!untouched(row, q))
                    for (int c = 0; c < L.ci[q]; c++)
                      PM.at_int(row, q, c) = val_i(row, q, c);
              }
            },
            Access::read(ParticleLoopIndex{}), Access::write(pm))
            ->execute();
      }
      auto before = pm->get();
      D.p->add_particles_local(pm);
      auto after = pm->get();
      g.ck(after->npart == n && before->npart == n, "product matrix size changed");
      for (int row = 0; row < n && !g.failed; row++) {
        Pp e = zero_of(D);
        int rr = 0, ii = 0;
        for (auto &x : order) {
          for (int c = 0; c < x.ncomp; c++) {
            if (x.real) {
              e.r[x.name][c] = rval(row, L.tr[rr], c, salt);
              g.ck(after->at(Sym<REAL>(x.name), row, c) == e.r[x.name][c],
                   "product matrix row ", row, " ", x.name, "[", c, "] reads ",
                   after->at(Sym<REAL>(x.name), row, c), " after adding, expected ", e.r[x.name][c]);
            } else {
              e.i[x.name][c] = untouched(row, ii) ? (c == x.ncomp - 1 ? dflt[x.name] : 0)
                                                  : val_i(row, ii, c);
              g.ck(after->at(Sym<INT>(x.name), row, c) == e.i[x.name][c],
                   "product matrix row ", row, " ", x.name, "[", c, "] reads ",
                   after->at(Sym<INT>(x.name), row, c), " after adding, expected ", e.i[x.name][c]);
            }
          }
          (x.real ? rr : ii)++;
        }
        e.cell = e.i[CELL][0];
        D.c.push_back(e);
      }
      added += n;
      kinds += n > 0;
      g.label("product_matrix");
    } else if (kind == 2) { // descendant products
      const bool from_src = g.boolean();
      const bool with_cell = g.chance(1, 3), with_pos = g.boolean();
      const int per = (int)g.integer(1, 3);
      const int sub_mode = (int)g.draw(3); // 0 whole, 1 sub group, 2 half of the products
      Layout L;
      std::vector<Prop> order;
      auto spec = make_spec(D, salt, with_cell, with_pos, L, order);
      for (int q = 0; q < L.nint; q++)
        L.def[q] = 0;
      auto dp = std::make_shared<DescendantProducts>(target(), spec, per);
      Grp &Par = from_src ? S : D;
      const uint64_t unc = ncell;
      auto key = [](REAL p0) {
        uint64_t b = 0;
        static_assert(sizeof(REAL) == 8, "");
        __builtin_memcpy(&b, &p0, 8);
        return (INT)(b >> 3);
      };
      auto keep = [=](INT k, int child) {
        return sub_mode != 2 || pbt::hash(k, salt, child, 31) % 2 == 0;
      };
      auto in_sub = [=](INT k) { return sub_mode != 1 || pbt::hash(k, salt, 41) % 3 != 0; };
      auto kernel = [=](auto DP, auto index, auto P) {
        const INT k = key(P.at(0));
        for (int child = 0; child < per; child++) {
          if (keep(k, child))
            DP.set_parent(index, child);
          const INT row = (k >> 4) * 8 + child;
          for (int q = 0; q < L.nreal; q++)
            for (int c = 0; c < L.cr[q]; c++)
              DP.at_real(index, child, q, c) = rval(row, L.tr[q], c, salt);
          for (int q = 0; q < L.nint; q++)
            for (int c = 0; c < L.ci[q]; c++)
              DP.at_int(index, child, q, c) =
                  q == L.cell_index ? (INT)(pbt::hash(row, salt, 6) % unc)
                                    : ival(row, L.ti[q], c, salt);
        }
      };
      // sizes are given per loop
      std::vector<Pp> parents;
      for (auto &p : Par.c)
        if (in_sub(key(p.r.at("P")[0])))
          parents.push_back(p);
      dp->reset((int)parents.size());
      if (sub_mode == 1) {
        auto sub = particle_sub_group(
            Par.p, [=](auto P) { return in_sub(key(P.at(0))); },
            Access::read(Sym<REAL>("P")));
        g.ck((size_t)sub->get_npart_local() == parents.size(), "sub group has ",
             sub->get_npart_local(), " particles, expected ", parents.size());
        g.sync();
        particle_loop(sub, kernel, Access::write(dp), Access::read(ParticleLoopIndex{}),
                      Access::read(Sym<REAL>("P")))
            ->execute();
      } else
        particle_loop(Par.p, kernel, Access::write(dp), Access::read(ParticleLoopIndex{}),
                      Access::read(Sym<REAL>("P")))
            ->execute();
      if (from_src)
        D.p->add_particles_local(dp, S.p);
      else
        D.p->add_particles_local(dp);
      int n = 0;
      Content fresh;
      std::set<std::string> given;
      for (auto &x : order)
        given.insert(x.name);
      for (auto &p : parents) {
        const INT k = key(p.r.at("P")[0]);
        for (int child = 0; child < per; child++) {
          if (!keep(k, child))
            continue;
          Pp e = zero_of(D);
          e.cell = p.cell;
          inherit(e, D, Par, p, given);
          const INT row = (k >> 4) * 8 + child;
          int rr = 0, ii = 0;
          for (auto &x : order) {
            for (int c = 0; c < x.ncomp; c++) {
              if (x.real)
                e.r[x.name][c] = rval(row, L.tr[rr], c, salt);
              else
                e.i[x.name][c] = ii == L.cell_index ? (INT)(pbt::hash(row, salt, 6) % unc)
                                                    : ival(row, L.ti[ii], c, salt);
            }
            (x.real ? rr : ii)++;
          }
          if (with_cell)
            e.cell = e.i[CELL][0];
          fresh.push_back(e);
          n++;
        }
      }
      D.c.insert(D.c.end(), fresh.begin(), fresh.end());
      added += n;
      kinds += n > 0;
      w << "descendants of " << (from_src ? "source" : "self") << " per " << per << " mode "
        << sub_mode << (with_cell ? " with cells" : "") << " props " << order.size()
        << " parents " << parents.size() << " new " << n;
      g.label("descendants");
    } else if (kind == 3) {
      D.p->add_particles_local(S.p);
      for (auto &p : S.c) {
        Pp e = zero_of(D);
        e.cell = p.cell;
        inherit(e, D, S, p, {});
        D.c.push_back(e);
      }
      added += S.c.size();
      kinds += !S.c.empty();
      w << "whole source group " << S.c.size();
      g.label("group");
    } else if (kind == 4) {
      const int mode = (int)g.draw(5);
      ParticleSubGroupSharedPtr sub;
      auto in = [=](REAL p0) {
        uint64_t b = 0;
        __builtin_memcpy(&b, &p0, 8);
        return pbt::hash(b, salt, 3) % 3 != 0;
      };
      Grp &Par = mode == 4 ? D : S;
      const int cellsel = (int)(salt % ncell);
      if (mode == 0)
        sub = particle_sub_group(S.p);
      else if (mode == 3)
        sub = particle_sub_group(S.p, cellsel);
      else if (mode == 1)
        sub = static_particle_sub_group(
            S.p, [=](auto P) { return in(P.at(0)); }, Access::read(Sym<REAL>("P")));
      else
        sub = particle_sub_group(
            Par.p, [=](auto P) { return in(P.at(0)); }, Access::read(Sym<REAL>("P")));
      D.p->add_particles_local(sub);
      Content fresh;
      for (auto &p : Par.c) {
        const bool sel = mode == 0 ? true : mode == 3 ? p.cell == cellsel : in(p.r.at("P")[0]);
        if (!sel)
          continue;
        Pp e = zero_of(D);
        e.cell = p.cell;
        inherit(e, D, Par, p, {});
        fresh.push_back(e);
      }
      D.c.insert(D.c.end(), fresh.begin(), fresh.end());
      added += fresh.size();
      kinds += !fresh.empty();
      w << "sub group mode " << mode << " n " << fresh.size();
      g.label("sub_group");
    } else if (kind == 5) { // leave holes
      Grp &X = G[g.draw(2)];
      auto in = [=](REAL p0) {
        uint64_t b = 0;
        __builtin_memcpy(&b, &p0, 8);
        return pbt::hash(b, salt, 3) % 2 != 0;
      };
      X.p->remove_particles(particle_sub_group(
          X.p, [=](auto P) { return in(P.at(0)); }, Access::read(Sym<REAL>("P"))));
      Content k;
      for (auto &p : X.c)
        if (!in(p.r.at("P")[0]))
          k.push_back(p);
      X.c = k;
      w << "remove half of " << (&X == &D ? "destination" : "source");
    } else if (kind == 6) { // reorder cells
      Grp &X = G[g.draw(2)];
      const uint64_t unc = ncell;
      auto nc = [=](REAL p0) {
        uint64_t b = 0;
        __builtin_memcpy(&b, &p0, 8);
        return (INT)(pbt::hash(b, salt, 4) % unc);
      };
      particle_loop(
          X.p, [=](auto P, auto C) { C.at(0) = nc(P.at(0)); },
          Access::read(Sym<REAL>("P")), Access::write(Sym<INT>(CELL)))
          ->execute();
      X.p->cell_move();
      for (auto &p : X.c)
        p.cell = p.i[CELL][0] = nc(p.r.at("P")[0]);
      w << "cell move of " << (&X == &D ? "destination" : "source");
    } else {
      Grp &X = G[g.draw(2)];
      X.p->clear();
      X.c.clear();
      w << "clear " << (&X == &D ? "destination" : "source");
    }
    // bound growth
    g.note(w.str());
    check(w.str());
    if (G[0].c.size() > 3000) {
      G[0].p->clear();
      G[0].c.clear();
    }
  }
  g.mark(kinds > 0 && added > 2);
}
} // namespace

PBT_MAIN("C03", prop)
