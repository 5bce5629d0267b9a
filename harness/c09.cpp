// C09: kernels receive generator values completely and without reuse.
#include "pop.hpp"
using namespace np;

namespace {

struct Counter { // a generator whose values are 1, 2, 3, ...
  INT drawn{0};
};

template <typename T>
std::shared_ptr<RNGGenerationFunction<T>> make_gen(std::shared_ptr<Counter> c,
                                                   bool device) {
  if (!device)
    return std::make_shared<HostRNGGenerationFunction<T>>(
        std::function<T()>([c]() -> T { return (T)(++c->drawn); }));
  return std::make_shared<GenericDeviceRNGGenerationFunction<T>>(
      std::function<int(T *, const std::size_t)>(
          [c](T *d, const std::size_t n) -> int {
            std::vector<T> v(n);
            for (auto &x : v)
              x = (T)(++c->drawn);
            if (n)
              target()->queue.memcpy(d, v.data(), n * sizeof(T)).wait_and_throw();
            return 0;
          }));
}

// One generator object of the case and what has been handed out so far.
template <typename T> struct Source {
  std::shared_ptr<Counter> cnt;
  int ncomp{0}, block{0}, over{-1};
  bool atomic{false}, device{false};
  std::shared_ptr<HostPerParticleBlockRNG<T>> per;
  std::shared_ptr<HostAtomicBlockKernelRNG<T>> at;
  std::set<INT> used;
  INT before{0};
  std::string name;
  void gen(Gen &g, bool atomic_) {
    atomic = atomic_;
    cnt = std::make_shared<Counter>();
    ncomp = (int)g.draw(5);
    block = g.pick<int>({8192, 1, 2, 7, 64, 1000});
    device = g.chance(1, 4);
    const bool ctor = g.boolean();
    auto f = make_gen<T>(cnt, device);
    auto c = cnt;
    auto host = [c]() -> T { return (T)(++c->drawn); };
    if (atomic) {
      if (ctor && !device)
        at = host_atomic_block_kernel_rng<T>(host, ncomp, block);
      else
        at = std::make_shared<HostAtomicBlockKernelRNG<T>>(f, ncomp, block);
      at->suppress_warnings = true;
    } else {
      if (ctor && !device)
        per = host_per_particle_block_rng<T>(host, ncomp, block);
      else
        per = std::make_shared<HostPerParticleBlockRNG<T>>(f, ncomp, block);
    }
    std::ostringstream o;
    o << (atomic ? "atomic" : "per particle") << " components " << ncomp
      << " block " << block << (device ? " device generator" : "");
    name = o.str();
  }
  void pre(Gen &g, INT npart) {
    before = cnt->drawn;
    if (atomic) {
      over = -1;
      if (g.chance(1, 3))
        over = (int)g.draw(2 * std::min<INT>(npart, 500) * std::max(ncomp, 1) + 2);
      at->set_num_random_numbers(over);
      at->internal_state_is_valid = true;
    }
  }
  // v: (value, valid) of every read of the loop.
  void check(Gen &g, const std::vector<std::pair<INT, bool>> &v, INT npart,
             int nread) {
    std::set<INT> here;
    INT invalid = 0;
    for (auto &x : v) {
      if (!x.second) {
        invalid++;
        g.ck(x.first == 0, name, ": invalid sample has value ", x.first);
        continue;
      }
      if (!g.ck(x.first >= 1 && x.first <= cnt->drawn, name, ": value ",
                x.first, " was not produced by the generator (", cnt->drawn,
                " drawn)"))
        return;
      if (!g.ck(here.insert(x.first).second, name, ": value ", x.first,
                " handed out twice in one loop"))
        return;
      if (!g.ck(!used.count(x.first), name, ": value ", x.first,
                " was already handed out in an earlier loop"))
        return;
      if (!atomic)
        g.ck(x.first > before, name, ": stale value ", x.first);
    }
    used.insert(here.begin(), here.end());
    if (!atomic) {
      g.ck(invalid == 0, name, ": per particle sample reported invalid");
      return;
    }
    const INT have = ncomp == 0 ? 0 : over > -1 ? over : npart * ncomp;
    const INT want = npart * nread;
    if (want <= have)
      g.ck(invalid == 0, name, ": ", invalid, " of ", want,
           " reads invalid although ", have, " values were requested");
    g.ck(at->valid_internal_state() == (invalid == 0), name,
         ": valid_internal_state() is ", at->valid_internal_state(), " after ",
         invalid, " invalid reads");
  }
};

template <typename T, typename RNG>
auto reader(int nread, int off) {
  return [=](auto I, auto R, auto OUT, auto OK) {
    INT ok = OK.at(0);
    for (int k = 0; k < nread; k++) {
      bool v = false;
      OUT.at(off + k) = (INT)R.at(I, k, &v);
      if (v)
        ok |= (INT)1 << (off + k);
    }
    OK.at(0) = ok;
  };
}

template <typename T> void run(Gen &g) {
  Pop pop;
  CartMesh::Opts mo;
  mo.max_stencil = 0;
  mo.max_subdiv = 1;
  pop.gen(g, mo,
          ParticleSpec{ParticleProp(Sym<INT>("OUT"), 8),
                       ParticleProp(Sym<INT>("OK"), 1)},
          120, false, 1500);
  auto &A = pop.A;
  Sub sub = gen_sub(g, pop);
  g.note("sub group: ", sub.name);
  Source<T> per, at;
  per.gen(g, false);
  at.gen(g, true);
  std::shared_ptr<KernelRNG<PerParticleBlockRNG<T>>> kper = per.per;
  std::shared_ptr<KernelRNG<AtomicBlockRNG<T>>> kat = at.at;
  auto tup = tuple_rng(tuple_rng(kper), kat);
  g.note(per.name, "; ", at.name);
  bool nontrivial = false;

  auto clear = [&]() {
    particle_loop(
        A,
        [=](auto OUT, auto OK) {
          for (int k = 0; k < 8; k++)
            OUT.at(k) = -7;
          OK.at(0) = 0;
        },
        Access::write(Sym<INT>("OUT")), Access::write(Sym<INT>("OK")))
        ->execute();
  };

  const int nops = (int)g.integer(1, 6);
  for (int op = 0; op < nops; op++) {
    if (g.chance(1, 3)) { // change the population
      if (g.boolean()) {
        auto rm = mask_on(A, g.seed32(), 1, 1 + g.draw(3));
        A->remove_particles(rm);
        pop.refresh();
        g.note("removal");
      } else {
        pop.add(gen_occ(g, pop.ncell, 60), g.seed32(), 1500);
        g.note("addition");
      }
    }
    clear();
    int a = 0, b = pop.ncell;
    const int mode = (int)g.draw(4);
    if (mode >= 2) {
      a = (int)(g.draw(1000) % pop.ncell);
      b = mode == 2 ? a + 1 : a + (int)(g.draw(1000) % (pop.ncell - a + 1));
    }
    auto launch = [&](auto loop) {
      if (mode < 2)
        loop->execute();
      else if (mode == 2)
        loop->execute(a);
      else if (g.boolean())
        loop->execute(a, b);
      else {
        loop->submit(a, b);
        loop->wait();
      }
    };
    const int kind = (int)g.draw(7);
    g.note("op ", op, " kind ", kind, " cells [", a, ",", b, ")");
    if (kind <= 4) {
      const bool is_sub = kind != 4 ? kind % 2 : g.boolean();
      INT npart = 0;
      for (auto &p : pop.parts)
        if (p.cell >= a && p.cell < b && (!is_sub || sub.in(p)))
          npart++;
      const int nper = kind == 2 || kind == 3 ? 0 : (int)g.draw(per.ncomp + 1);
      const int nat = kind < 2 ? 0 : (int)g.draw(5);
      const bool use_per = kind < 2 || kind == 4, use_at = kind >= 2;
      if (use_per)
        per.pre(g, npart);
      if (use_at)
        at.pre(g, npart);
      auto ai = Access::read(ParticleLoopIndex{});
      auto ao = Access::write(Sym<INT>("OUT"));
      auto ak = Access::write(Sym<INT>("OK"));
      if (kind < 2) {
        auto k = reader<T, int>(nper, 0);
        if (is_sub)
          launch(particle_loop(sub.s, k, ai, Access::read(kper), ao, ak));
        else
          launch(particle_loop(A, k, ai, Access::read(kper), ao, ak));
      } else if (kind < 4) {
        auto k = reader<T, char>(nat, 4);
        if (is_sub)
          launch(particle_loop(sub.s, k, ai, Access::read(kat), ao, ak));
        else
          launch(particle_loop(A, k, ai, Access::read(kat), ao, ak));
      } else {
        auto k = [=](auto I, auto R, auto OUT, auto OK) {
          INT ok = 0;
          auto r0 = R.template get<0>().template get<0>();
          auto r1 = Access::TupleRNG::get<1>(R);
          for (int k = 0; k < nper; k++) {
            bool v = false;
            OUT.at(k) = (INT)r0.at(I, k, &v);
            if (v)
              ok |= (INT)1 << k;
          }
          for (int k = 0; k < nat; k++) {
            bool v = false;
            OUT.at(4 + k) = (INT)r1.at(I, k, &v);
            if (v)
              ok |= (INT)1 << (4 + k);
          }
          OK.at(0) = ok;
        };
        if (is_sub)
          launch(particle_loop(sub.s, k, ai, Access::read(tup), ao, ak));
        else
          launch(particle_loop(A, k, ai, Access::read(tup), ao, ak));
      }
      auto out = read_dat<INT>(pop, "OUT");
      auto okv = read_dat<INT>(pop, "OK");
      std::vector<std::pair<INT, bool>> vper, vat;
      for (std::size_t i = 0; i < pop.parts.size(); i++) {
        auto &p = pop.parts[i];
        const bool in = p.cell >= a && p.cell < b && (!is_sub || sub.in(p));
        for (int k = 0; k < 8; k++) {
          const bool read = in && (k < 4 ? (use_per && k < nper)
                                         : (use_at && k - 4 < nat));
          if (!read) {
            g.ck(out[i][k] == -7, "particle outside the loop was written");
            continue;
          }
          (k < 4 ? vper : vat).push_back({out[i][k], (okv[i][0] >> k) & 1});
        }
      }
      if (use_per)
        per.check(g, vper, npart, nper);
      if (use_at)
        at.check(g, vat, npart, nat);
      nontrivial = nontrivial || vper.size() + vat.size() > 1;
    } else {
      // pair loops over disjoint pairs spread over lists and waves
      const bool is_at = kind == 6;
      const int nlist = 1 + (int)g.draw(3);
      const int style = (int)g.draw(3); // push_back, host list, mixed
      const uint64_t salt = g.seed32();
      const int nwave = 1 + (int)g.draw(3);
      const bool leave_empty = g.chance(1, 4);
      std::vector<std::vector<INT>> layers(pop.ncell);
      for (auto &p : pop.parts)
        layers[p.cell].push_back(p.layer);
      std::vector<std::vector<int>> pc(nlist), pi(nlist), pj(nlist);
      std::vector<CellwisePairListHostSharedPtr> hosts;
      for (int l = 0; l < nlist; l++)
        hosts.push_back(std::make_shared<CellwisePairListHost>(pop.ncell));
      std::map<std::pair<INT, INT>, int> first; // (cell, layer i) -> 1
      for (int c = 0; c < pop.ncell; c++) {
        auto &v = layers[c];
        for (std::size_t i = v.size(); i > 1; i--)
          std::swap(v[i - 1], v[pbt::hash(salt, c, i) % i]);
        std::vector<std::vector<std::pair<int, int>>> per_list(nlist);
        for (std::size_t i = 0; i + 1 < v.size(); i += 2) {
          const uint64_t h = pbt::hash(salt, c, i, 77);
          if (h % 5 == 0)
            continue;
          int l = (int)((h >> 8) % nlist);
          if (leave_empty && l == 0)
            continue;
          per_list[l].push_back({(int)v[i], (int)v[i + 1]});
          pc[l].push_back(c);
          pi[l].push_back((int)v[i]);
          pj[l].push_back((int)v[i + 1]);
          first[{c, v[i]}] = 1;
        }
        for (int l = 0; l < nlist; l++) {
          const int n = (int)per_list[l].size();
          const int nw = std::min(nwave, n);
          for (int k = 0; k < n; k++) {
            auto &w = hosts[l]->get()[c][k < nw ? k : (int)(pbt::hash(salt, c, k) % nw)];
            w.first.push_back(per_list[l][k].first);
            w.second.push_back(per_list[l][k].second);
          }
        }
      }
      std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> lists;
      for (int l = 0; l < nlist; l++) {
        auto s = std::make_shared<CellwisePairListSimple>(target(), pop.ncell);
        if (style == 1 || (style == 2 && l % 2))
          s->set(hosts[l]);
        else
          s->push_back(pc[l], pi[l], pj[l]);
        lists.push_back({A, A, s});
      }
      INT npair = 0;
      for (auto &f : first)
        if (f.first.first >= a && f.first.first < b)
          npair++;
      const int nread = is_at ? (int)g.draw(5) : (int)g.draw(per.ncomp + 1);
      Source<T> &src = is_at ? at : per;
      INT ntotal = (INT)first.size();
      src.pre(g, ntotal);
      auto launch_pair = [&](ParticlePairLoopBaseSharedPtr loop) {
        if (mode < 2)
          loop->execute();
        else
          loop->execute(a, b);
      };
      auto ai = Access::read(ParticlePairLoopIndex{});
      auto ao = Access::A(Access::write(Sym<INT>("OUT")));
      auto ak = Access::A(Access::write(Sym<INT>("OK")));
      if (is_at)
        launch_pair(particle_pair_loop("c09", lists, reader<T, short>(nread, 0), ai,
                                       Access::read(kat), ao, ak));
      else
        launch_pair(particle_pair_loop("c09", lists, reader<T, long>(nread, 0), ai,
                                       Access::read(kper), ao, ak));
      auto out = read_dat<INT>(pop, "OUT");
      auto okv = read_dat<INT>(pop, "OK");
      std::vector<std::pair<INT, bool>> v;
      for (std::size_t i = 0; i < pop.parts.size(); i++) {
        auto &p = pop.parts[i];
        const bool in =
            p.cell >= a && p.cell < b && first.count({p.cell, p.layer});
        for (int k = 0; k < 8; k++) {
          if (!in || k >= nread) {
            g.ck(out[i][k] == -7, "particle outside the pairs was written");
            continue;
          }
          v.push_back({out[i][k], (okv[i][0] >> k) & 1});
        }
      }
      g.note("pair loop, lists ", nlist, " style ", style, " pairs ", npair);
      src.check(g, v, npair, nread);
      nontrivial = nontrivial || v.size() > 1;
    }
    g.sync();
  }
  if (nontrivial)
    g.mark();
}

void prop(Gen &g) {
  if (g.boolean())
    run<REAL>(g);
  else
    run<INT>(g);
}

} // namespace

PBT_MAIN("C09", prop)
