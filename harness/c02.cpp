// C02: global, local and hybrid moves deliver every particle to its owner.
#include "np.hpp"
using namespace np;

namespace {
// Fine cell (per dimension) and sixteenth of a cell for a particle at a step.
struct Rule {
  uint64_t salt;
  int mode;      // 0 stay, 1 neighbour cells, 2 anywhere, 3 one cell, 4 few move
  int frac_lo;   // smallest sixteenth used (0: on the edge)
  int n[3];
  int ndim;
};

void prop(Gen &g) {
  const int me = np::rank(), nr = np::nranks();
  CartMesh M;
  const bool dyadic = g.boolean();
  CartMesh::Opts o;
  o.dyadic = dyadic;
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 4}));
  M.gen(g, o);
  const int ndim = M.ndim;
  const int frac_lo = (M.extent == 0.5 || M.extent == 1 || M.extent == 2 || M.extent == 4) ? 0 : 1;
  auto mapper = CartesianHMeshLocalMapper(target(), M.mesh);
  auto domain = std::make_shared<Domain>(M.mesh, mapper);
  const int nv = (int)g.integer(1, 5), nk = (int)g.integer(1, 3);
  const bool pos_first = g.boolean();
  ParticleSpec spec;
  if (!pos_first) {
    spec.push(ParticleProp(Sym<REAL>("A"), nv));
    spec.push(ParticleProp(Sym<INT>("B"), nk));
  }
  spec.push(ParticleProp(Sym<REAL>("P"), ndim, true));
  spec.push(ParticleProp(Sym<INT>("CELL_ID"), 1, true));
  spec.push(ParticleProp(Sym<INT>("ID"), 1));
  if (pos_first) {
    spec.push(ParticleProp(Sym<REAL>("V"), nv));
    spec.push(ParticleProp(Sym<INT>("Z"), nk));
  }
  const std::string rn = pos_first ? "V" : "A", in = pos_first ? "Z" : "B";
  auto A = std::make_shared<ParticleGroup>(domain, spec, target());
  g.note(M.str(), " nv ", nv, " nk ", nk, pos_first ? " P first" : " P last");

  Model m;
  std::map<INT, std::array<int, 3>> where; // fine cell
  const double h16 = M.h / 16.0;
  auto fine = [=](INT id, uint64_t salt, int d, int nd) {
    return (int)(pbt::hash((uint64_t)id, salt, d, 1) % (uint64_t)nd);
  };
  auto frac = [=](INT id, uint64_t salt, int d) {
    const int f = (int)(pbt::hash((uint64_t)id, salt, d, 2) % (uint64_t)(16 - frac_lo)) + frac_lo;
    // edges often
    return (frac_lo == 0 && pbt::hash((uint64_t)id, salt, d, 3) % 4 == 0) ? 0 : f;
  };
  INT next = 1;
  bool crossed = false;
  auto place = [&](INT id, const int *c) {
    auto &r = m[id];
    r.rank = M.owner(c);
    r.cell = r.rank >= 0 ? M.local_cell(r.rank, c) : -1;
    r.i["CELL_ID"] = {r.cell};
    where[id] = {c[0], c[1], c[2]};
  };
  CompareOpts co;
  co.ignore = {"NESO_MPI_RANK", "P"};
  auto check = [&](const std::string &when, bool exact) {
    auto rows = snapshot(g, A);
    CompareOpts c = co;
    if (!exact) {
      c.cells = false;
      c.ignore.insert("CELL_ID");
    }
    compare(g, rows, m, c, when);
    if (!g.failed)
      for (auto &row : rows) {
        const INT id = row.i.at("ID")[0];
        auto &e = m.at(id).r.at("P");
        for (int d = 0; d < ndim; d++)
          if (!g.ck(row.r.at("P")[d] == e[d], when, " particle ", id,
                    " position[", d, "] = ", row.r.at("P")[d], ", expected ", e[d]))
            break;
      }
    g.sync();
  };
  auto add = [&](int n, uint64_t salt, int who) {
    // every rank knows what all ranks add
    for (int r = 0; r < nr; r++) {
      int nl = who == 0 ? n : (who == 1 ? (r == (int)(salt % nr) ? n : 0)
                                        : (int)(pbt::hash(salt, r) % (n + 1)));
      std::unique_ptr<ParticleSet> ps;
      if (r == me)
        ps = std::make_unique<ParticleSet>(nl, A->get_particle_spec());
      const int nc = [&]() {
        int x = 1;
        for (int d = 0; d < ndim; d++)
          x *= M.boxes[6 * r + 3 + d] - M.boxes[6 * r + d];
        return x;
      }();
      for (int p = 0; p < nl; p++) {
        const INT id = next++;
        Rec rec;
        rec.rank = r;
        rec.cell = pbt::hash(salt, id, 8) % nc;
        rec.i["CELL_ID"] = {rec.cell};
        rec.i["ID"] = {id};
        rec.i["NESO_MPI_RANK"] = {0, 0};
        int c[3] = {0, 0, 0};
        for (int d = 0; d < ndim; d++) {
          c[d] = fine(id, salt, d, M.n[d]);
          rec.r["P"].push_back((double)(c[d] * 16 + frac(id, salt, d)) * h16);
        }
        where[id] = {c[0], c[1], c[2]};
        for (int k = 0; k < nv; k++)
          rec.r[rn].push_back(rval(id, 1, k, salt));
        for (int k = 0; k < nk; k++)
          rec.i[in].push_back(ival(id, 2, k, salt));
        if (r == me) {
          for (auto &v : rec.r)
            for (size_t k = 0; k < v.second.size(); k++)
              ps->at(Sym<REAL>(v.first), p, k) = v.second[k];
          for (auto &v : rec.i)
            if (v.first != "NESO_MPI_RANK")
              for (size_t k = 0; k < v.second.size(); k++)
                ps->at(Sym<INT>(v.first), p, k) = v.second[k];
        }
        m[id] = rec;
      }
      if (r == me)
        A->add_particles_local(*ps);
    }
  };

  add((int)g.size(0, 300), g.seed32(), (int)g.draw(3));
  check("after adding", true);

  const int nsteps = (int)g.integer(1, 6);
  for (int s = 0; s < nsteps; s++) {
    const uint64_t salt = g.seed32();
    const int op = g.weighted({8, 2, 2, 2, 1});
    std::ostringstream w;
    w << "step " << s << " ";
    if (op == 0) { // displace + hybrid move + cell move
      const int mode = (int)g.draw(6);
      const int target_rank = (int)(salt % nr);
      // new cells, computed from the recorded cells on every rank
      int mv = 0;
      std::map<INT, std::array<REAL, 3>> newpos;
      const bool one_rank = g.chance(1, 4);
      for (auto &pr : m) {
        const INT id = pr.first;
        int c[3] = {0, 0, 0};
        auto &old = where[id];
        const bool skip = one_rank && pr.second.rank != target_rank;
        auto &P = pr.second.r["P"];
        for (int d = 0; d < ndim; d++) {
          c[d] = old[d];
          if (mode == 1)
            c[d] = old[d] + (int)(pbt::hash(id, salt, d, 7) % 3) - 1;
          else if (mode == 2)
            c[d] = fine(id, salt, d, M.n[d]);
          else if (mode == 3)
            c[d] = fine(0, salt, d, M.n[d]);
          else if (mode == 4 && pbt::hash(id, salt, 9) % 8 == 0)
            c[d] = fine(id, salt, d, M.n[d]);
          else if (mode == 5)
            c[d] = M.n[d] - 1 - old[d];
          c[d] = (c[d] + M.n[d]) % M.n[d];
          if (skip)
            c[d] = old[d];
          else
            P[d] = (double)(c[d] * 16 + frac(id, salt, d)) * h16;
          newpos[id][d] = P[d];
        }
        const int r0 = pr.second.rank;
        place(id, c);
        mv += r0 != pr.second.rank;
        if (!g.ck(pr.second.rank >= 0, "cell not owned by exactly one rank"))
          break;
      }
      g.sync();
      crossed = crossed || mv > 0;
      // write the positions on the host side through a device map by id
      BufferDevice<REAL> dpos(target(), std::max<size_t>(1, 3 * (size_t)next));
      std::vector<REAL> hp(3 * (size_t)next, 0.0);
      for (auto &x : newpos)
        for (int d = 0; d < ndim; d++)
          hp[3 * x.first + d] = x.second[d];
      target()->queue.memcpy(dpos.ptr, hp.data(), hp.size() * sizeof(REAL)).wait();
      auto kp = dpos.ptr;
      particle_loop(
          A,
          [=](auto ID, auto P) {
            for (int d = 0; d < ndim; d++)
              P.at(d) = kp[3 * ID.at(0) + d];
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("P")))
          ->execute();
      A->hybrid_move();
      w << "hybrid mode " << mode << (one_rank ? " one rank" : "") << " crossing " << mv;
      g.note(w.str());
      check(w.str() + " (after hybrid_move)", false);
      A->cell_move();
      check(w.str() + " (after cell_move)", true);
      g.label("hybrid");
    } else if (op == 1 || op == 2) {
      // direct global / neighbour move to chosen ranks
      std::vector<int> nb(nr * nr, 0);
      {
        std::vector<int> mine(nr, 0);
        for (int r : M.mesh->get_local_communication_neighbours())
          mine[r] = 1;
        mine[me] = 1;
        MPI_Allgather(mine.data(), nr, MPI_INT, nb.data(), nr, MPI_INT, MPI_COMM_WORLD);
      }
      const int den = (int)g.pick<int>({1, 2, 8});
      const bool neg = g.boolean();
      std::vector<INT> dest(next, -1);
      int mv = 0;
      for (auto &pr : m) {
        const INT id = pr.first;
        const int r0 = pr.second.rank;
        int d = neg ? -1 : r0;
        if (pbt::hash(id, salt, 4) % den == 0) {
          d = (int)(pbt::hash(id, salt, 5) % nr);
          if (op == 2 && !nb[r0 * nr + d])
            d = r0;
        }
        dest[id] = d;
        if (d >= 0) {
          mv += d != r0;
          pr.second.rank = d;
        }
      }
      crossed = crossed || mv > 0;
      BufferDevice<INT> dd(target(), std::max<size_t>(1, (size_t)next));
      target()->queue.memcpy(dd.ptr, dest.data(), dest.size() * sizeof(INT)).wait();
      auto kd = dd.ptr;
      const int comp = op == 1 ? 0 : 1;
      particle_loop(
          A, [=](auto ID, auto R) { R.at(comp) = kd[ID.at(0)]; },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("NESO_MPI_RANK")))
          ->execute();
      if (op == 1)
        A->global_move();
      else
        A->local_move();
      w << (op == 1 ? "global_move" : "local_move") << " 1/" << den << " moved " << mv;
      g.note(w.str());
      check(w.str(), false);
      // bring everything home again
      for (auto &pr : m) {
        auto c = where[pr.first];
        place(pr.first, c.data());
      }
      A->hybrid_move();
      A->cell_move();
      check(w.str() + " then hybrid_move and cell_move", true);
      g.label(op == 1 ? "global_move" : "local_move");
    } else if (op == 3) {
      add((int)g.size(0, 200), salt, (int)g.draw(3));
      w << "add";
      g.note(w.str());
      check(w.str(), true);
    } else {
      const INT mod = g.integer(1, 4);
      const INT rem = (INT)(salt % mod);
      A->remove_particles(particle_sub_group(
          A, [=](auto ID) { return ID.at(0) % mod == rem; },
          Access::read(Sym<INT>("ID"))));
      for (auto it = m.begin(); it != m.end();)
        it = it->first % mod == rem ? m.erase(it) : std::next(it);
      w << "remove id % " << mod << " == " << rem;
      g.note(w.str());
      check(w.str(), true);
    }
  }
  g.mark(nr == 1 ? m.size() > 1 : crossed);
}
} // namespace

PBT_MAIN("C02", prop)
