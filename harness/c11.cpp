// C11: DSMC sampling yields valid collision pairs in the requested numbers.
#include "pop.hpp"
using namespace np;

namespace {

void all_to_all(Gen &g) {
  const int wg = 1 << g.draw(7);
  const int n = (int)g.size(0, 300);
  std::vector<int> seen(std::max(1, n * n), 0), syncs(wg, 0);
  bool in = true;
  for (int w = 0; w < wg; w++) {
    DSMC::CellwiseAllToAll a(wg, w);
    a.apply(
        n,
        [&](auto i, auto j) {
          if (i < 0 || j < 0 || i >= n || j >= n) {
            in = false;
            return;
          }
          seen[i * n + j]++;
        },
        [&]() { syncs[w]++; });
  }
  g.note("all to all: work group ", wg, " particles ", n);
  g.ck(in, "index out of range");
  for (int w = 0; w < wg; w++)
    g.ck(syncs[w] == syncs[0], "work item ", w, " synchronised ", syncs[w],
         " times, item 0 ", syncs[0]);
  for (int i = 0; i < n && !g.failed; i++) {
    g.ck(seen[i * n + i] == 0, "particle ", i, " paired with itself");
    for (int j = i + 1; j < n; j++)
      g.ck(seen[i * n + j] + seen[j * n + i] == 1, "pair ", i, " ", j,
           " visited ", seen[i * n + j] + seen[j * n + i], " times");
  }
  g.label("all to all");
  g.mark(n > 1);
}

struct Rng {
  std::mt19937_64 e;
  int kind;
  bool uniform() const { return kind == 0; }
  REAL operator()() {
    const uint64_t h = e();
    const REAL u = (REAL)(h >> 11) * 0x1p-53;
    if (kind == 0)
      return u;
    if (kind == 1) { // the ends of the interval
      const int k = h % 5;
      return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? 1.0 - 0x1p-53 : u;
    }
    if (kind == 2)
      return 0.0;
    if (kind == 3)
      return 1.0;
    return (REAL)(h % 4) * 0.25;
  }
};

void dsmc(Gen &g) {
  Pop pop;
  CartMesh::Opts mo;
  mo.max_stencil = 0;
  mo.max_subdiv = 1;
  const int ncs = (int)g.integer(1, 3), ncc = (int)g.integer(1, 2);
  const int sc = (int)g.draw(ncs), cc = (int)g.draw(ncc);
  pop.gen(g, mo,
          ParticleSpec{ParticleProp(Sym<INT>("SPECIES"), ncs),
                       ParticleProp(Sym<INT>("CCELL"), ncc),
                       ParticleProp(Sym<INT>("V"), 1)},
          g.chance(1, 5) ? 200 : 30, false, 1500);
  set_param("LOOP_LOCAL_SIZE",
            g.pick<std::size_t>({32, 1, 2, 4, 8, 16, 64}));
  const int block =
      (int)target()->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
  auto &A = pop.A;
  const int nsp = (int)g.integer(1, 5);
  std::vector<INT> species;
  {
    std::set<INT> s;
    const bool wild = g.boolean();
    for (int k = 0; k < nsp; k++)
      s.insert(wild ? (INT)g.uniform(-1000, 1000) : (INT)k);
    species.assign(s.begin(), s.end());
    for (std::size_t x = species.size(); x > 1; x--)
      std::swap(species[x - 1], species[g.draw(x)]);
    if (g.chance(1, 5))
      species.push_back(species[0]); // listed twice
  }
  const INT unlisted = 5000;
  auto partition = std::make_shared<DSMC::CollisionCellPartition>(
      target(), pop.ncell, species);
  auto rng = std::make_shared<Rng>();
  rng->e.seed(g.seed32() + 7919 * rank());
  rng->kind = g.chance(1, 2) ? 0 : (int)g.draw(5);
  std::shared_ptr<RNGGenerationFunction<REAL>> rf =
      std::make_shared<HostRNGGenerationFunction<REAL>>(
          std::function<REAL()>([rng]() { return (*rng)(); }));
  auto norep = std::make_shared<DSMC::PairSamplerNoReplacement>(
      target(), pop.ncell, rf);
  auto ntc = std::make_shared<DSMC::PairSamplerNTC>(target(), pop.ncell, rf);
  std::ostringstream ss;
  for (auto s : species)
    ss << s << " ";
  g.note("species ", ss.str(), " rng kind ", rng->kind);
  bool nontrivial = false;

  const int nops = (int)g.integer(1, 4);
  for (int op = 0; op < nops && !g.failed; op++) {
    if (op && g.chance(1, 3)) {
      if (g.boolean()) {
        A->remove_particles(mask_on(A, g.seed32(), 1, 1 + g.draw(3)));
        pop.refresh();
        g.note("removal");
      } else {
        pop.add(gen_occ(g, pop.ncell, 12), g.seed32(), 1500);
        g.note("addition");
      }
    }
    // assign species and collision cells
    const uint64_t salt = g.seed32();
    const int maxcc = (int)g.size(1, 12);
    const bool same_cc = g.boolean();
    const bool some_unlisted = g.chance(1, 3);
    const int skew = (int)g.draw(3);
    std::vector<int> ccounts(pop.ncell);
    for (int c = 0; c < pop.ncell; c++)
      ccounts[c] = same_cc ? maxcc
                           : 1 + (int)(pbt::hash(salt, c, 3, rank()) % maxcc);
    if (g.chance(1, 6)) // cells without particles may have no collision cells
      for (int c = 0; c < pop.ncell; c++)
        if (A->get_npart_cell(c) == 0 && c % 2)
          ccounts[c] = 0;
    {
      BufferDevice<INT> d_sp(target(), species);
      BufferDevice<int> d_cc(target(), ccounts);
      const INT *k_sp = d_sp.ptr;
      const int *k_cc = d_cc.ptr;
      const int nlist = (int)species.size();
      particle_loop(
          A,
          [=](auto I, auto ID, auto S, auto C, auto V) {
            const uint64_t h = pbt::hash(salt, ID.at(0), 1);
            for (int k = 0; k < ncs; k++)
              S.at(k) = -77;
            for (int k = 0; k < ncc; k++)
              C.at(k) = -77;
            int s = (int)(h % (uint64_t)nlist);
            if (skew == 1 && (h >> 20) % 4)
              s = 0;
            S.at(sc) = some_unlisted && (h >> 30) % 5 == 0 ? unlisted : k_sp[s];
            const int m = k_cc[I.cell];
            int c = (int)((h >> 8) % (uint64_t)m);
            if (skew == 2 && (h >> 24) % 3)
              c = m - 1;
            C.at(cc) = c;
            V.at(0) = 0;
          },
          Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")),
          Access::write(Sym<INT>("SPECIES")), Access::write(Sym<INT>("CCELL")),
          Access::write(Sym<INT>("V")))
          ->execute();
    }
    Sub sub;
    if (g.chance(1, 3)) {
      sub = gen_sub(g, pop);
    } else {
      sub.s = particle_sub_group(A);
      sub.in = [](const PartInfo &) { return true; };
      sub.name = "whole";
    }
    auto S = read_dat<INT>(pop, "SPECIES");
    auto C = read_dat<INT>(pop, "CCELL");
    // (cell, ccell, species) -> layers
    std::map<std::tuple<int, int, INT>, std::set<int>> where;
    std::set<INT> listed(species.begin(), species.end());
    INT maxocc = 0;
    for (std::size_t k = 0; k < pop.parts.size(); k++)
      if (sub.in(pop.parts[k]) && listed.count(S[k][sc])) {
        auto &w = where[{(int)pop.parts[k].cell, (int)C[k][cc], S[k][sc]}];
        w.insert((int)pop.parts[k].layer);
        maxocc = std::max<INT>(maxocc, w.size());
      }
    const int what = (int)g.draw(3);
    g.note("op ", op, " on ", sub.name, " collision cells ", np::str(ccounts));
    if (what < 2) {
      partition->construct(sub.s, ccounts, Sym<INT>("SPECIES"), sc,
                           Sym<INT>("CCELL"), cc);
      auto d = partition->get_device();
      const INT nlin = (INT)listed.size();
      g.ck(d.max_num_species == nlin, "number of species ", d.max_num_species);
      g.ck(d.mesh_cell_count == pop.ncell, "mesh cell count");
      const INT nmat =
          d.max_num_collision_cells * d.max_num_species * pop.ncell;
      std::vector<INT> off(nmat + 1);
      target()
          ->queue
          .memcpy(off.data(), d.d_collision_cell_offsets,
                  off.size() * sizeof(INT))
          .wait_and_throw();
      INT nlisted = 0;
      for (auto &w : where)
        nlisted += w.second.size();
      if (!g.ck(off[nmat] == nlisted, "the partition holds ", off[nmat],
                " particles, expected ", nlisted))
        return;
      std::vector<int> ent(nlisted + 1);
      if (nlisted)
        target()
            ->queue.memcpy(ent.data(), d.d_map_entries, nlisted * sizeof(int))
            .wait_and_throw();
      auto h = d;
      h.d_collision_cell_offsets = off.data();
      h.d_map_entries = ent.data();
      g.ck(partition->max_collision_cell_occupancy == maxocc,
           "max_collision_cell_occupancy ",
           partition->max_collision_cell_occupancy, " expected ", maxocc);
      std::map<INT, INT> lin;
      std::set<INT> lins;
      for (INT s : listed) {
        lin[s] = partition->get_linear_species_id(s);
        g.ck(lin[s] >= 0 && lin[s] < nlin && lins.insert(lin[s]).second,
             "linear species id ", lin[s], " of ", s);
      }
      { // the device agrees
        std::vector<INT> in(listed.begin(), listed.end()), out(nlin + 1, -9);
        in.push_back(unlisted);
        BufferDevice<INT> di(target(), in), dout(target(), out);
        INT *pi = di.ptr, *po = dout.ptr;
        target()
            ->queue
            .parallel_for(sycl::range<1>(nlin + 1),
                          [=](auto ix) {
                            INT l = -5;
                            const bool f =
                                d.get_linear_species_index(pi[ix], &l);
                            po[ix] = f ? l : -1;
                          })
            .wait_and_throw();
        out = dout.get();
        for (INT k = 0; k < nlin; k++)
          g.ck(out[k] == lin[in[k]], "device species index of ", in[k]);
        g.ck(out[nlin] == -1, "an unlisted species was found");
      }
      for (int c = 0; c < pop.ncell && !g.failed; c++)
        for (int q = 0; q < ccounts[c]; q++)
          for (INT s : listed) {
            auto f = where.find({c, q, s});
            const INT want = f == where.end() ? 0 : f->second.size();
            const INT have = h.get_num_particles_cell_species(c, q, lin[s]);
            if (!g.ck(have == want, "cell ", c, " collision cell ", q,
                      " species ", s, " holds ", have, " particles, expected ",
                      want))
              return;
            std::set<int> l;
            for (INT k = 0; k < have; k++)
              l.insert(h.get_particle_layer(c, q, lin[s], k));
            g.ck(want == 0 || l == f->second, "cell ", c, " collision cell ", q,
                 " species ", s, " lists the wrong layers");
          }
      // maximum pair counts
      const INT a = g.pick(species), b = g.boolean() ? a : g.pick(species);
      std::vector<std::vector<int>> mx, mr;
      if (g.boolean())
        mx.assign(g.draw(4), std::vector<int>(3, -4));
      partition->get_max_num_pairs(a, b, false, mx);
      partition->get_max_num_pairs(a, b, true, mr);
      if (!g.ck((int)mx.size() == pop.ncell && (int)mr.size() == pop.ncell,
                "get_max_num_pairs returned ", mx.size(), " cells"))
        return;
      auto num = [&](int c, int q, INT s) -> int {
        auto f = where.find({c, q, s});
        return f == where.end() ? 0 : (int)f->second.size();
      };
      for (int c = 0; c < pop.ncell && !g.failed; c++) {
        if (!g.ck((int)mx[c].size() == ccounts[c] &&
                      (int)mr[c].size() == ccounts[c],
                  "get_max_num_pairs of cell ", c, " has ", mx[c].size(),
                  " entries"))
          return;
        for (int q = 0; q < ccounts[c]; q++) {
          const int na = num(c, q, a), nb = num(c, q, b);
          const int w = a == b ? na / 2 : std::min(na, nb);
          g.ck(mx[c][q] == w, "maximum pairs of cell ", c, " collision cell ",
               q, " is ", mx[c][q], " expected ", w);
          const bool any = a == b ? na >= 2 : na >= 1 && nb >= 1;
          g.ck(mr[c][q] == (any ? std::numeric_limits<int>::max() : 0),
               "maximum pairs with replacement ", mr[c][q]);
        }
      }
      // sample
      const int how = (int)g.draw(4);
      std::vector<std::vector<int>> counts = mx;
      INT total = 0;
      for (int c = 0; c < pop.ncell; c++) {
        for (int q = 0; q < ccounts[c]; q++) {
          const uint64_t hh = pbt::hash(salt, c, q, 55);
          if (how == 1)
            counts[c][q] = (int)(hh % (mx[c][q] + 1));
          else if (how == 2)
            counts[c][q] = std::min<int>(mx[c][q], hh % 2);
          else if (how == 3 && c % 2)
            counts[c][q] = 0;
          total += counts[c][q];
        }
        if (how == 1 && g.failed)
          break;
        while (how == 2 && !counts[c].empty() && counts[c].back() == 0)
          counts[c].pop_back(); // the trailing collision cells are not given
      }
      norep->sample(partition, a, b, counts);
      auto list = norep->get_host_pair_list();
      auto dl = norep->get_pair_list();
      g.ck(dl.pair_count == total, "pair_count ", dl.pair_count, " expected ",
           total);
      std::map<std::pair<int, int>, std::pair<int, INT>> info;
      for (std::size_t k = 0; k < pop.parts.size(); k++)
        if (sub.in(pop.parts[k]))
          info[{(int)pop.parts[k].cell, (int)pop.parts[k].layer}] = {
              (int)C[k][cc], S[k][sc]};
      for (int c = 0; c < pop.ncell && !g.failed; c++) {
        std::set<int> used;
        std::vector<int> got(ccounts[c], 0);
        std::vector<int> L, R;
        for (auto &w : list[c]) {
          L.insert(L.end(), w.second.first.begin(), w.second.first.end());
          R.insert(R.end(), w.second.second.begin(), w.second.second.end());
        }
        if (!g.ck(L.size() == R.size(), "pair list shape"))
          return;
        for (std::size_t p = 0; p < L.size(); p++) {
          auto fi = info.find({c, L[p]}), fj = info.find({c, R[p]});
          if (!g.ck(fi != info.end() && fj != info.end(), "cell ", c, " pair (",
                    L[p], ",", R[p], ") is not made of particles of the group"))
            return;
          g.ck(fi->second.second == a && fj->second.second == b, "cell ", c,
               " pair (", L[p], ",", R[p], ") has species ", fi->second.second,
               ",", fj->second.second, " requested ", a, ",", b);
          g.ck(fi->second.first == fj->second.first, "cell ", c, " pair (", L[p],
               ",", R[p], ") spans two collision cells");
          got[fi->second.first]++;
          g.ck(used.insert(L[p]).second & used.insert(R[p]).second, "cell ", c,
               " pair (", L[p], ",", R[p], ") uses a particle again");
        }
        for (int q = 0; q < ccounts[c]; q++) {
          const int w = q < (int)counts[c].size() ? counts[c][q] : 0;
          g.ck(got[q] == w, "cell ", c, " collision cell ", q, " got ", got[q],
               " pairs, requested ", w);
        }
      }
      // a loop over the sampled pairs
      std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> v{
          CellwisePairListAbsolute<ParticleGroup, CellwisePairList>(A, A,
                                                                    norep)};
      auto la = std::make_shared<LocalArray<INT>>(target(), 2);
      la->fill(0);
      particle_pair_loop(
          v,
          [=](auto Si, auto Sj, auto Vi, auto Vj, auto LA) {
            Vi.at(0)++;
            Vj.at(0)++;
            LA.fetch_add(0, (INT)1);
            LA.fetch_add(1, (INT)(Si.at(sc) == a && Sj.at(sc) == b));
          },
          Access::A(Access::read(Sym<INT>("SPECIES"))),
          Access::B(Access::read(Sym<INT>("SPECIES"))),
          Access::A(Access::write(Sym<INT>("V"))),
          Access::B(Access::write(Sym<INT>("V"))), Access::add(la))
          ->execute();
      auto lv = la->get();
      g.ck(lv[0] == total && lv[1] == total, "a loop over the pairs ran ", lv[0],
           " times and saw the right species ", lv[1], " times, expected ",
           total);
      INT touched = 0;
      auto V = read_dat<INT>(pop, "V");
      for (auto &x : V) {
        g.ck(x[0] == 0 || x[0] == 1, "a particle was in ", x[0], " pairs");
        touched += x[0];
      }
      g.ck(touched == 2 * total, "pairs touched ", touched, " particles");
      g.label(a == b ? "no replacement AA" : "no replacement AB");
      nontrivial = nontrivial || total > 0;
    } else {
      // NTC: two sub groups by species, or one
      const bool one = g.boolean();
      const uint64_t s2 = g.seed32();
      std::function<bool(const PartInfo &)> inA, inB;
      ParticleSubGroupSharedPtr GA, GB;
      if (one) {
        GA = GB = sub.s;
        inA = inB = sub.in;
      } else {
        const uint64_t den = 2 + g.draw(3);
        GA = particle_sub_group(
            sub.s,
            [=](auto ID) { return pbt::hash(s2, ID.at(0), 1) % den == 0; },
            Access::read(Sym<INT>("ID")));
        GB = particle_sub_group(
            sub.s,
            [=](auto ID) { return pbt::hash(s2, ID.at(0), 1) % den == 1; },
            Access::read(Sym<INT>("ID")));
        auto in = sub.in;
        inA = [=](const PartInfo &p) {
          return in(p) && pbt::hash(s2, p.id, 1) % den == 0;
        };
        inB = [=](const PartInfo &p) {
          return in(p) && pbt::hash(s2, p.id, 1) % den == 1;
        };
      }
      std::vector<std::set<int>> la(pop.ncell), lb(pop.ncell);
      for (auto &p : pop.parts) {
        if (inA(p))
          la[p.cell].insert((int)p.layer);
        if (inB(p))
          lb[p.cell].insert((int)p.layer);
      }
      std::vector<int> counts(pop.ncell, 0);
      const int amount = (int)g.size(0, 120);
      const bool big = g.chance(1, 4);
      INT total = 0;
      for (int c = 0; c < pop.ncell; c++) {
        const bool can = one ? la[c].size() >= 2
                             : la[c].size() >= 1 && lb[c].size() >= 1;
        if (can)
          counts[c] = (int)(pbt::hash(salt, c, 77) % (uint64_t)(amount + 1));
        if (can && big && total < 20000 && la[c].size() < 12)
          counts[c] = 60 * (int)std::max(la[c].size(), lb[c].size()) *
                      (one ? (int)la[c].size() : 1);
        total += counts[c];
      }
      // the block size is read when the sampler is made
      if (g.chance(1, 3) || op == 0)
        ntc = std::make_shared<DSMC::PairSamplerNTC>(target(), pop.ncell, rf);
      auto counts_in = counts;
      ntc->sample(GA, GB, counts_in);
      auto dl = ntc->get_pair_list();
      g.ck(dl.pair_count == total, "NTC pair_count ", dl.pair_count,
           " expected ", total);
      g.ck(dl.block_size == block, "block size ", dl.block_size);
      if (total)
        g.ck(ntc->validate_pair_list(target()),
             "validate_pair_list() rejects a sampled list");
      auto list = ntc->get_host_pair_list(target());
      std::map<std::pair<int, int>, int> hits;
      for (int c = 0; c < pop.ncell && !g.failed; c++) {
        auto &I = std::get<0>(list[c]);
        auto &J = std::get<1>(list[c]);
        auto &W = std::get<2>(list[c]);
        if (!g.ck((int)I.size() == counts[c] && (int)J.size() == counts[c],
                  "cell ", c, " has ", I.size(), " pairs, requested ",
                  counts[c]))
          return;
        std::set<int> ua, ub;
        std::set<std::pair<int, int>> up;
        for (std::size_t p = 0; p < I.size(); p++) {
          g.ck(la[c].count(I[p]) && lb[c].count(J[p]), "cell ", c, " pair (",
               I[p], ",", J[p], ") is not from the sub groups");
          g.ck(I[p] != J[p], "cell ", c, " pairs particle ", I[p],
               " with itself");
          ua.insert(I[p]);
          ub.insert(J[p]);
          up.insert(std::minmax(I[p], J[p]));
          hits[{c, I[p]}]++;
          hits[{c, J[p]}]++;
          // no conflict inside a wave of a block
          for (std::size_t q = p / block * block; q < p; q++)
            g.ck(W[p] != W[q] || (I[p] != I[q] && I[p] != J[q] &&
                                  J[p] != I[q] && J[p] != J[q]),
                 "cell ", c, " pairs ", q, " and ", p,
                 " share a particle and a wave");
        }
        if (rng->uniform() && I.size() >= 60 * la[c].size() &&
            I.size() >= 60 * lb[c].size() && !I.empty()) {
          g.ck(ua == la[c] && ub == lb[c], "cell ", c, ": after ", I.size(),
               " uniform samples only ", ua.size(), " of ", la[c].size(),
               " first and ", ub.size(), " of ", lb[c].size(),
               " second particles were ever chosen");
          const std::size_t n = la[c].size();
          if (one && I.size() >= 30 * n * n)
            g.ck(up.size() == n * (n - 1) / 2, "cell ", c, ": after ", I.size(),
                 " uniform samples only ", up.size(), " of ", n * (n - 1) / 2,
                 " pairs were ever chosen");
          g.label("coverage");
        }
      }
      std::vector<
          CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>>
          v{CellwisePairListAbsolute<ParticleGroup,
                                     CellwisePairListBlockInterface>(A, A, ntc)};
      particle_pair_loop(
          v,
          [=](auto Vi, auto Vj) {
            Vi.at(0)++;
            Vj.at(0)++;
          },
          Access::A(Access::write(Sym<INT>("V"))),
          Access::B(Access::write(Sym<INT>("V"))))
          ->execute();
      auto V = read_dat<INT>(pop, "V");
      for (std::size_t k = 0; k < pop.parts.size() && !g.failed; k++) {
        auto f = hits.find({(int)pop.parts[k].cell, (int)pop.parts[k].layer});
        const int w = f == hits.end() ? 0 : f->second;
        g.ck(V[k][0] == w, "a loop over the pairs touched a particle ", V[k][0],
             " times, it is in ", w, " pairs");
      }
      g.label(one ? "NTC AA" : "NTC AB");
      nontrivial = nontrivial || total > 0;
    }
    g.sync();
  }
  g.mark(nontrivial);
}

void prop(Gen &g) {
  if (g.chance(1, 8))
    all_to_all(g);
  else
    dsmc(g);
}

} // namespace

PBT_MAIN("C11", prop)
