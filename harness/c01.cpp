// C01: any local history of add/remove/clear/cell_move/loop/add dat/remove dat
// leaves exactly the particles and values the history implies.
#include "np.hpp"
using namespace np;

namespace {
struct DatInfo {
  std::string name;
  int ncomp;
  bool real;
};

void prop(Gen &g) {
  const int me = np::rank();
  const int ndim = 2;
  std::vector<int> dims = {(int)g.integer(1, 3), (int)g.integer(1, 3)};
  if (np::nranks() > 1)
    dims[0] += 1;
  const int subdiv = (int)g.draw(2);
  set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 2, 16}));
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 4, 8}));
  set_param("NESO_PARTICLES_NPART_CELL_HINT",
            g.pick<std::size_t>({0, 0, 3, 40}));
  MeshHolder mh;
  mh.mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, ndim, dims, 1.0,
                                             subdiv);
  auto domain = std::make_shared<Domain>(mh.mesh);
  const int ncell = mh.mesh->get_cell_count();

  const int ncompV = (int)g.integer(1, 4);
  const int ncompID = (int)g.integer(1, 2);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), ndim, true),
                    ParticleProp(Sym<REAL>("V"), ncompV),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), ncompID),
                    ParticleProp(Sym<INT>("K"), 1)};
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  std::map<std::string, DatInfo> dats;
  for (auto &d : std::vector<DatInfo>{{"P", ndim, true},
                                      {"V", ncompV, true},
                                      {"CELL_ID", 1, false},
                                      {"ID", ncompID, false},
                                      {"K", 1, false},
                                      {"NESO_MPI_RANK", 2, false}})
    dats[d.name] = d;

  Model m;
  INT next_id = 1;
  int nadd = 0, ndisturb = 0;
  g.note("dims ", dims[0], "x", dims[1], " subdiv ", subdiv, " cells/rank ",
         ncell, " ncompV ", ncompV);

  auto check = [&](const std::string &when) {
    auto rows = snapshot(g, A);
    compare(g, rows, m, {}, when);
    g.sync();
    return rows;
  };
  // selects particles of this rank; mode and salt are shared choices
  auto choose = [&](const std::vector<Row> &rows, int mode, uint64_t salt) {
    std::vector<std::size_t> sel;
    const INT cell = pbt::hash(salt, me) % ncell;
    const uint64_t den = 1 + pbt::hash(salt, 5) % 4;
    for (std::size_t i = 0; i < rows.size(); i++) {
      const INT n = A->get_npart_cell(rows[i].cell);
      bool s = false;
      if (mode == 0)
        s = pbt::hash(salt, rows[i].i.at("ID")[0]) % den == 0;
      else if (mode == 1)
        s = rows[i].cell == cell;
      else if (mode == 2)
        s = rows[i].layer < (n + 1) / 2;
      else if (mode == 3)
        s = rows[i].layer >= n / 2;
      else if (mode == 4)
        s = rows[i].layer % 2 == (INT)(den % 2);
      else
        s = true;
      if (s)
        sel.push_back(i);
    }
    std::sort(sel.begin(), sel.end(), [&](auto a, auto b) {
      return pbt::hash(salt, a) < pbt::hash(salt, b);
    });
    return sel;
  };

  const int nops = (int)g.integer(2, 28);
  for (int op = 0; op < nops; op++) {
    const int kind = op == 0 ? 0 : g.weighted({6, 3, 2, 2, 2, 1, 6, 4, 2, 2, 2});
    const uint64_t salt = g.seed32();
    std::ostringstream w;
    w << "op " << op << ":";
    if (kind == 0) { // add
      int n = op == 0 ? (int)g.integer(1, 120) : (int)g.size(0, 200);
      const int mode = (int)g.draw(4);
      const int partial = (int)g.draw(4);
      if (np::nranks() > 1)
        n = (int)(pbt::hash(salt, 9, me) % (n + 1));
      ParticleSpec full = A->get_particle_spec();
      ParticleSpec use;
      std::set<std::string> left_out;
      for (auto &pr : full.properties_real) {
        if (partial == 3 && pr.name != "P" && pbt::hash(salt, pr.name.size(), pr.name[0] + 256 * pr.name.back()) % 3 == 0)
          left_out.insert(pr.name);
        else
          use.push(pr);
      }
      for (auto &pr : full.properties_int) {
        if (partial == 3 && pr.name != "CELL_ID" && pr.name != "ID" &&
            pbt::hash(salt, pr.name.size(), pr.name[0] + 256 * pr.name.back()) % 3 == 0)
          left_out.insert(pr.name);
        else
          use.push(pr);
      }
      auto ps = std::make_shared<ParticleSet>(n, use);
      const INT base = next_id + (INT)me * 1000000;
      next_id += 1000;
      for (int p = 0; p < n; p++) {
        Rec r;
        r.rank = me;
        const INT id = base + p;
        INT cell;
        if (mode == 0)
          cell = pbt::hash(salt, id) % ncell;
        else if (mode == 1)
          cell = pbt::hash(salt, 3) % ncell;
        else if (mode == 2)
          cell = ncell - 1;
        else
          cell = (pbt::hash(salt, id) % 8 == 0)
                     ? pbt::hash(salt, id, 2) % ncell
                     : 0;
        r.cell = cell;
        int di = 0;
        for (auto &d : dats) {
          di++;
          for (int k = 0; k < d.second.ncomp; k++) {
            const bool out = left_out.count(d.first);
            if (d.second.real) {
              const REAL v = out ? 0.0 : rval(id, di, k, salt);
              r.r[d.first].push_back(v);
              if (!out)
                ps->at(Sym<REAL>(d.first), p, k) = v;
            } else {
              INT v = out ? 0 : ival(id, di, k, salt);
              if (d.first == "ID")
                v = k == 0 ? id : v;
              if (d.first == "CELL_ID")
                v = cell;
              if (d.first == "K" && !out)
                v = pbt::hash(salt, id, 4) % 3;
              r.i[d.first].push_back(v);
              if (!out)
                ps->at(Sym<INT>(d.first), p, k) = v;
            }
          }
        }
        m[id] = r;
      }
      if (salt % 2)
        A->add_particles_local(ps);
      else
        A->add_particles_local(*ps);
      nadd += n;
      w << "add " << n << " mode " << mode << " partial " << partial;
      g.label("add");
    } else if (kind == 1 || kind == 2) { // remove by cells and layers
      const int mode = (int)g.draw(6);
      auto rows = snapshot(g, A);
      auto sel = choose(rows, mode, salt);
      std::vector<INT> cells, layers;
      for (auto i : sel) {
        cells.push_back(rows[i].cell);
        layers.push_back(rows[i].layer);
        m.erase(rows[i].i.at("ID")[0]);
      }
      const int n = (int)cells.size();
      if (kind == 1) {
        A->remove_particles(n, cells, layers);
      } else {
        BufferDevice<INT> dc(target(), std::max(1, n)),
            dl(target(), std::max(1, n));
        if (n) {
          target()->queue.memcpy(dc.ptr, cells.data(), n * sizeof(INT)).wait();
          target()->queue.memcpy(dl.ptr, layers.data(), n * sizeof(INT)).wait();
        }
        A->remove_particles(n, dc.ptr, dl.ptr);
      }
      ndisturb += n > 0;
      w << "remove " << n << " by layers mode " << mode;
      g.label("remove");
    } else if (kind == 3) { // remove a sub group
      const INT mod = g.integer(1, 4);
      const INT rem = (INT)(salt % mod);
      auto sub = particle_sub_group(
          A, [=](auto ID) { return ID.at(0) % mod == rem; },
          Access::read(Sym<INT>("ID")));
      A->remove_particles(sub);
      int n = 0;
      for (auto it = m.begin(); it != m.end();) {
        if (it->first % mod == rem) {
          it = m.erase(it);
          n++;
        } else
          ++it;
      }
      ndisturb += n > 0;
      w << "remove sub group " << n;
      g.label("remove_subgroup");
    } else if (kind == 4) {
      const INT key = g.draw(3);
      auto rem = std::make_shared<ParticleRemover>(target());
      rem->remove(A, A->get_dat(Sym<INT>("K")), key);
      int n = 0;
      for (auto it = m.begin(); it != m.end();) {
        if (it->second.i.at("K")[0] == key) {
          it = m.erase(it);
          n++;
        } else
          ++it;
      }
      ndisturb += n > 0;
      w << "remover key " << key << " " << n;
      g.label("remover");
    } else if (kind == 5) {
      A->clear();
      m.clear();
      w << "clear";
      g.label("clear");
    } else if (kind == 6) { // cell move
      const int mode = (int)g.draw(4);
      const INT nc = ncell;
      if (mode == 0)
        particle_loop(
            A,
            [=](auto ID, auto C) {
              C.at(0) = pbt::hash(salt, ID.at(0)) % (uint64_t)nc;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
            ->execute();
      else if (mode == 1)
        particle_loop(
            A,
            [=](auto ID, auto C) {
              C.at(0) = pbt::hash(salt, 1) % (uint64_t)nc;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
            ->execute();
      else if (mode == 2)
        particle_loop(
            A,
            [=](auto ID, auto C) { C.at(0) = (C.at(0) + 1) % nc; },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
            ->execute();
      else
        particle_loop(
            A,
            [=](auto ID, auto C) {
              if (pbt::hash(salt, ID.at(0), 3) % 4 == 0)
                C.at(0) = pbt::hash(salt, ID.at(0)) % (uint64_t)nc;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))
            ->execute();
      int moved = 0;
      for (auto &p : m) {
        INT c = p.second.cell;
        if (mode == 0)
          c = pbt::hash(salt, p.first) % ncell;
        else if (mode == 1)
          c = pbt::hash(salt, 1) % ncell;
        else if (mode == 2)
          c = (c + 1) % ncell;
        else if (pbt::hash(salt, p.first, 3) % 4 == 0)
          c = pbt::hash(salt, p.first) % ncell;
        moved += c != p.second.cell;
        p.second.cell = c;
        p.second.i["CELL_ID"][0] = c;
      }
      A->cell_move();
      ndisturb += moved > 0;
      w << "cell move mode " << mode << " moved " << moved;
      g.label("cell_move");
    } else if (kind == 7) { // write with a loop
      const int nc = ncompV;
      particle_loop(
          A,
          [=](auto ID, auto V, auto K) {
            for (int k = 0; k < nc; k++)
              V.at(k) = rval(ID.at(0), 50, k, salt);
            K.at(0) = (K.at(0) + 1) % 3;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("V")),
          Access::write(Sym<INT>("K")))
          ->execute();
      for (auto &p : m) {
        for (int k = 0; k < nc; k++)
          p.second.r["V"][k] = rval(p.first, 50, k, salt);
        p.second.i["K"][0] = (p.second.i["K"][0] + 1) % 3;
      }
      w << "loop write";
      g.label("loop");
    } else if (kind == 8) { // new property
      const bool real = g.boolean();
      const std::string name = (real ? "R" : "I") + std::to_string(g.draw(3));
      if (!dats.count(name)) {
        const int nc = (int)g.integer(1, 5);
        const bool by_sym = g.boolean();
        if (real) {
          if (by_sym)
            A->add_particle_dat(Sym<REAL>(name), nc);
          else
            A->add_particle_dat(ParticleDat(
                target(), ParticleProp(Sym<REAL>(name), nc), ncell));
          for (auto &p : m)
            p.second.r[name] = std::vector<REAL>(nc, 0.0);
        } else {
          if (by_sym)
            A->add_particle_dat(Sym<INT>(name), nc);
          else
            A->add_particle_dat(ParticleDat(
                target(), ParticleProp(Sym<INT>(name), nc), ncell));
          for (auto &p : m)
            p.second.i[name] = std::vector<INT>(nc, 0);
        }
        dats[name] = {name, nc, real};
        w << "add dat " << name << " x" << nc;
        g.label("add_dat");
        // the content of a new property is not specified before it is written
        {
          if (real) {
            particle_loop(
                A,
                [=](auto ID, auto R) {
                  for (int k = 0; k < nc; k++)
                    R.at(k) = rval(ID.at(0), 60, k, salt);
                },
                Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>(name)))
                ->execute();
            for (auto &p : m)
              for (int k = 0; k < nc; k++)
                p.second.r[name][k] = rval(p.first, 60, k, salt);
          } else {
            particle_loop(
                A,
                [=](auto ID, auto R) {
                  for (int k = 0; k < nc; k++)
                    R.at(k) = ival(ID.at(0), 60, k, salt);
                },
                Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(name)))
                ->execute();
            for (auto &p : m)
              for (int k = 0; k < nc; k++)
                p.second.i[name][k] = ival(p.first, 60, k, salt);
          }
          w << " written";
        }
      }
    } else if (kind == 9) { // remove property
      std::vector<std::string> c;
      for (auto &d : dats)
        if (d.first.size() == 2 && (d.first[0] == 'R' || d.first[0] == 'I') &&
            isdigit(d.first[1]))
          c.push_back(d.first);
      if (c.size()) {
        const std::string name = g.pick(c);
        if (dats[name].real) {
          A->remove_particle_dat(Sym<REAL>(name));
          g.ck(!A->contains_dat(Sym<REAL>(name)), "removed dat still listed");
        } else {
          A->remove_particle_dat(Sym<INT>(name));
          g.ck(!A->contains_dat(Sym<INT>(name)), "removed dat still listed");
        }
        dats.erase(name);
        for (auto &p : m) {
          p.second.r.erase(name);
          p.second.i.erase(name);
        }
        w << "remove dat " << name;
        g.label("remove_dat");
      }
    } else { // fetch particles by cell and layer
      const int mode = (int)g.draw(6);
      auto rows = snapshot(g, A);
      auto sel = choose(rows, mode, salt);
      std::vector<INT> cells, layers;
      for (auto i : sel) {
        cells.push_back(rows[i].cell);
        layers.push_back(rows[i].layer);
      }
      auto ps = A->get_particles(cells, layers);
      g.ck(ps->npart == (int)cells.size(), "get_particles returned ", ps->npart,
           " particles, expected ", cells.size());
      for (std::size_t x = 0; x < sel.size() && !g.failed; x++) {
        const INT id = rows[sel[x]].i.at("ID")[0];
        auto it = m.find(id);
        if (!g.ck(it != m.end(), "unknown particle ", id))
          break;
        for (auto &d : dats)
          for (int k = 0; k < d.second.ncomp; k++) {
            if (d.second.real) {
              const REAL v = ps->at(Sym<REAL>(d.first), (int)x, k);
              g.ck(v == it->second.r.at(d.first)[k], "get_particles ", d.first,
                   "[", k, "] of particle ", id, " = ", v, ", expected ",
                   it->second.r.at(d.first)[k]);
            } else {
              const INT v = ps->at(Sym<INT>(d.first), (int)x, k);
              g.ck(v == it->second.i.at(d.first)[k], "get_particles ", d.first,
                   "[", k, "] of particle ", id, " = ", v, ", expected ",
                   it->second.i.at(d.first)[k]);
            }
          }
      }
      w << "get_particles " << sel.size();
      g.label("get_particles");
    }
    g.note(w.str());
    check(w.str());
  }
  g.mark(nadd > 0 && ndisturb > 0);
}
} // namespace

PBT_MAIN("C01", prop)
