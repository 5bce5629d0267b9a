// C10: pair loops visit every listed pair exactly once without write conflicts.
#include "pop.hpp"
using namespace np;

namespace {

constexpr int QN = 131 + 'Q' + 7 * 'Q'; // what Pop uses for property Q

struct P2 {
  int i, j, w;
};
using Lists = std::vector<std::vector<P2>>; // [cell] in list order

// A blocked pair list made by the harness.
struct BlockList : CellwisePairListBlockInterface {
  int block, ncell;
  int max_wave{0};
  INT count{0};
  std::vector<int> waves, counts, list;
  std::vector<INT> es;
  std::shared_ptr<BufferDevice<int>> d_waves, d_counts, d_list;
  std::shared_ptr<BufferDevice<INT>> d_es;
  BlockList(int block, const Lists &l) : block(block), ncell((int)l.size()) {
    int nblocks = 1;
    for (auto &c : l)
      nblocks = std::max(nblocks, ((int)c.size() + block - 1) / block);
    waves.assign(nblocks * ncell, 0);
    for (int c = 0; c < ncell; c++) {
      es.push_back(count);
      counts.push_back((int)l[c].size());
      count += l[c].size();
      for (std::size_t p = 0; p < l[c].size(); p++) {
        int &w = waves[(p / block) * ncell + c];
        w = std::max(w, l[c][p].w + 1);
        max_wave = std::max(max_wave, w);
      }
    }
    for (auto &c : l)
      for (auto &p : c)
        list.push_back(p.i);
    for (auto &c : l)
      for (auto &p : c)
        list.push_back(p.j);
    for (auto &c : l)
      for (auto &p : c)
        list.push_back(p.w);
    if (list.empty())
      list.push_back(0);
    d_waves = std::make_shared<BufferDevice<int>>(target(), waves);
    d_counts = std::make_shared<BufferDevice<int>>(target(), counts);
    d_list = std::make_shared<BufferDevice<int>>(target(), list);
    d_es = std::make_shared<BufferDevice<INT>>(target(), es);
  }
  CellwisePairListBlockDevice get_pair_list() override {
    CellwisePairListBlockDevice d;
    d.pair_count = count;
    d.block_size = block;
    d.cell_count = ncell;
    d.max_wave_count = max_wave;
    d.d_wave_counts = d_waves->ptr;
    d.d_pair_counts = d_counts->ptr;
    d.d_pair_counts_es = d_es->ptr;
    d.d_pair_list = d_list->ptr;
    return d;
  }
};

// Greedy waves inside each block of the list (block 0: the whole list).
void colour(std::vector<P2> &l, int block) {
  std::map<int, int> next;
  for (std::size_t p = 0; p < l.size(); p++) {
    if (block > 0 && p % block == 0)
      next.clear();
    const int w = std::max(next[l[p].i], next[l[p].j]);
    l[p].w = w;
    next[l[p].i] = next[l[p].j] = w + 1;
  }
}

// Pairs of one cell: particles layer with hash % nl == which.
std::vector<P2> gen_pairs(uint64_t salt, int c, int n, int nl, int which,
                          int shape, int amount) {
  std::vector<int> mine;
  for (int l = 0; l < n; l++)
    if ((int)(pbt::hash(salt, c, l, 7) % nl) == which)
      mine.push_back(l);
  std::vector<P2> out;
  const int m = (int)mine.size();
  if (m < 2)
    return out;
  const int np = (int)(pbt::hash(salt, c, 99) % (uint64_t)(amount + 1));
  for (int p = 0; p < np; p++) {
    int a = (int)(pbt::hash(salt, c, p, 1) % m);
    int b = (int)(pbt::hash(salt, c, p, 2) % (m - 1));
    if (shape == 1) // a hot particle
      a = 0;
    else if (shape == 2) { // neighbours in a ring
      a = p % m;
      b = a;
    } else if (shape == 3) { // few particles
      a = a % std::min(m, 3);
      b = b % std::min(m - 1, 3);
    }
    if (b >= a)
      b++;
    b %= m;
    if (pbt::hash(salt, c, p, 3) & 1)
      std::swap(a, b);
    out.push_back({mine[a], mine[b], 0});
    if (out.back().i == out.back().j)
      out.pop_back();
  }
  return out;
}

// Disjoint pairs: na first particles, nb second particles. same: one group.
std::vector<P2> gen_matching(uint64_t salt, int c, int na, int nb, bool same,
                             int nl, int which) {
  std::vector<int> a, b;
  for (int l = 0; l < na; l++)
    if ((int)(pbt::hash(salt, c, l, 7) % nl) == which)
      a.push_back(l);
  if (!same)
    for (int l = 0; l < nb; l++)
      if ((int)(pbt::hash(salt, c, l, 8) % nl) == which)
        b.push_back(l);
  auto shuffle = [&](std::vector<int> &v, int k) {
    for (std::size_t x = v.size(); x > 1; x--)
      std::swap(v[x - 1], v[pbt::hash(salt, c, x, k) % x]);
  };
  shuffle(a, 11);
  shuffle(b, 12);
  if (same) {
    b.assign(a.begin() + a.size() / 2, a.end());
    a.resize(a.size() / 2);
  }
  std::size_t n = std::min(a.size(), b.size());
  if (n && pbt::hash(salt, c, 5) % 3 == 0)
    n = pbt::hash(salt, c, 6) % (n + 1);
  std::vector<P2> out;
  for (std::size_t p = 0; p < n; p++)
    out.push_back({a[p], b[p], 0});
  return out;
}

struct State {
  INT v, s;
};

INT mix(INT s, INT t, int which) {
  return (INT)(((uint64_t)s * 6364136223846793005ull +
                (uint64_t)t * 1442695040888963407ull + 97 * which + 11) &
               0x7fffffffffffffffull);
}

std::string str_lists(const std::vector<Lists> &ls) {
  std::ostringstream o;
  for (auto &l : ls) {
    o << "{";
    for (std::size_t c = 0; c < l.size(); c++) {
      if (l[c].empty())
        continue;
      o << " c" << c << ":";
      for (std::size_t p = 0; p < l[c].size() && p < 40; p++)
        o << "(" << l[c][p].i << "," << l[c][p].j << ")w" << l[c][p].w;
    }
    o << " }";
    if (o.str().size() > 1500)
      break;
  }
  return o.str();
}

void run(Gen &g) {
  Pop pop;
  CartMesh::Opts mo;
  mo.max_stencil = 0;
  mo.max_subdiv = 1;
  const ParticleSpec extra{ParticleProp(Sym<INT>("V"), 1),
                           ParticleProp(Sym<INT>("S"), 2),
                           ParticleProp(Sym<REAL>("Q"), 2)};
  pop.gen(g, mo, extra, g.chance(1, 6) ? 300 : 24, false, 900);
  set_param("LOOP_LOCAL_SIZE",
            g.pick<std::size_t>({32, 1, 2, 3, 4, 8, 16, 64}));
  const int block =
      (int)target()->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
  auto &A = pop.A;
  // a second group on the same domain
  auto B = std::make_shared<ParticleGroup>(pop.domain, pop.spec, target());
  std::vector<std::vector<INT>> idsA(pop.ncell), idsB(pop.ncell);
  {
    auto occ = gen_occ(g, pop.ncell, 24);
    const int n = std::min(900, std::accumulate(occ.begin(), occ.end(), 0));
    ParticleSet ps(n, pop.spec);
    int x = 0;
    for (int c = 0; c < pop.ncell; c++)
      for (int l = 0; l < occ[c] && x < n; l++, x++) {
        const INT id = 500000 + x;
        for (auto &p : pop.spec.properties_real)
          for (int k = 0; k < p.ncomp; k++)
            ps[p.sym][x][k] = Pop::init_r(id, p.name, k);
        ps[Sym<INT>("ID")][x][0] = id;
        ps[Sym<INT>("CELL_ID")][x][0] = c;
      }
    B->add_particles_local(ps);
  }
  std::map<INT, State> state;
  auto reload = [&](ParticleGroupSharedPtr G,
                    std::vector<std::vector<INT>> &ids) {
    for (int c = 0; c < pop.ncell; c++) {
      ids[c].clear();
      if (G->get_npart_cell(c) == 0)
        continue;
      auto d = G->get_cell(Sym<INT>("ID"), c);
      for (int l = 0; l < d->nrow; l++)
        ids[c].push_back(d->at(l, 0));
    }
  };
  auto init = [&](ParticleGroupSharedPtr G) {
    particle_loop(
        G,
        [=](auto ID, auto V, auto S) {
          V.at(0) = 0;
          S.at(0) = (INT)(pbt::hash(ID.at(0), 5) & 0xffff);
          S.at(1) = -1;
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("V")),
        Access::write(Sym<INT>("S")))
        ->execute();
  };
  auto simple0 = std::make_shared<CellwisePairListSimple>(target(), pop.ncell);
  auto simple1 = std::make_shared<CellwisePairListSimple>(target(), pop.ncell);
  auto host = std::make_shared<CellwisePairListHost>(pop.ncell);
  auto host1 = std::make_shared<CellwisePairListHost>(pop.ncell);
  bool nontrivial = false;
  const int nops = (int)g.integer(1, 5);
  for (int op = 0; op < nops && !g.failed; op++) {
    if (op && g.chance(1, 3)) {
      if (g.boolean()) {
        A->remove_particles(mask_on(A, g.seed32(), 1, 1 + g.draw(3)));
        pop.refresh();
        g.note("removal");
      } else {
        pop.add(gen_occ(g, pop.ncell, 10), g.seed32(), 900);
        g.note("addition");
      }
    }
    reload(A, idsA);
    reload(B, idsB);
    init(A);
    init(B);
    state.clear();
    std::map<INT, INT> cell_of;
    for (auto *v : {&idsA, &idsB})
      for (int c = 0; c < pop.ncell; c++)
        for (INT id : (*v)[c]) {
          state[id] = {0, (INT)(pbt::hash(id, 5) & 0xffff)};
          cell_of[id] = c;
        }
    // 0: push_back, 1: waves, 2: blocks
    const int kind = (int)g.draw(3);
    const int nl = (int)g.integer(1, kind == 2 ? 3 : 2);
    const bool same = kind != 0 || g.boolean();
    auto second = same ? A : B;
    auto &idsS = same ? idsA : idsB;
    std::vector<Lists> ls(nl, Lists(pop.ncell));
    const uint64_t salt = g.seed32();
    const int shape = (int)g.draw(4);
    const int amount = (int)g.size(0, 70);
    const bool sparse = g.chance(1, 3);
    for (int k = 0; k < nl; k++)
      for (int c = 0; c < pop.ncell; c++) {
        if (sparse && pbt::hash(salt, c, 17) % 3)
          continue;
        if (kind == 0)
          ls[k][c] = gen_matching(salt, c, idsA[c].size(), idsS[c].size(), same,
                                  nl, k);
        else {
          ls[k][c] = gen_pairs(salt, c, idsA[c].size(), nl, k, shape, amount);
          colour(ls[k][c], kind == 1 ? 0 : block);
        }
      }
    int a = 0, b = pop.ncell;
    const int mode = (int)g.draw(5);
    if (mode >= 3) {
      a = (int)(g.draw(1000) % pop.ncell);
      b = mode == 3 ? pop.ncell : a + (int)(g.draw(1000) % (pop.ncell - a + 1));
    }
    INT total = 0, in_range = 0;
    for (auto &l : ls)
      for (int c = 0; c < pop.ncell; c++) {
        total += l[c].size();
        if (c >= a && c < b)
          in_range += l[c].size();
      }
    g.note("op ", op, kind == 0 ? " push_back" : kind == 1 ? " waves" : " blocks",
           same ? "" : " two groups", " cells [", a, ",", b, ") ",
           str_lists(ls));
    // device log: 5 values per kernel call
    const INT cap = total * 2 + 16;
    BufferDevice<INT> log(target(), std::vector<INT>(cap * 6, -1));
    BufferDevice<INT> cnt(target(), std::vector<INT>{0});
    INT *k_log = log.ptr, *k_cnt = cnt.ptr;
    auto la = std::make_shared<LocalArray<INT>>(target(), 3);
    la->fill(0);
    auto kernel = [=](auto I, auto ID_i, auto ID_j, auto V_i, auto V_j, auto S_i,
                      auto S_j, auto Q_i, auto Q_j, auto LA) {
      const INT n = atomic_fetch_add(k_cnt, (INT)1);
      const INT vi = V_i.at(0), vj = V_j.at(0);
      const INT si = S_i.at(0), sj = S_j.at(0);
      if (n < cap) {
        k_log[n * 6 + 0] = ID_i.at(0);
        k_log[n * 6 + 1] = ID_j.at(0);
        k_log[n * 6 + 2] = vi;
        k_log[n * 6 + 3] = vj;
        k_log[n * 6 + 4] = I.get_loop_linear_index();
        // what the constant data of both particles says
        const bool ok =
            Q_i.at(0) == rval(ID_i.at(0), QN, 0) &&
            Q_i.at(1) == rval(ID_i.at(0), QN, 1) &&
            Q_j.at(0) == rval(ID_j.at(0), QN, 0) &&
            Q_j.at(1) == rval(ID_j.at(0), QN, 1);
        k_log[n * 6 + 5] = ok;
      }
      S_i.at(1) = ID_j.at(0);
      S_j.at(1) = ID_i.at(0);
      S_i.at(0) = (INT)(((uint64_t)si * 6364136223846793005ull +
                         (uint64_t)sj * 1442695040888963407ull + 97 * 0 + 11) &
                        0x7fffffffffffffffull);
      S_j.at(0) = (INT)(((uint64_t)sj * 6364136223846793005ull +
                         (uint64_t)si * 1442695040888963407ull + 97 * 1 + 11) &
                        0x7fffffffffffffffull);
      V_i.at(0) = vi + 1;
      V_j.at(0) = vj + 1;
      LA.fetch_add(0, (INT)1);
      LA.fetch_add(2, ID_i.at(0) * 3 + ID_j.at(0));
    };
    auto launch = [&](auto loop) {
      if (mode < 2)
        loop->execute();
      else if (mode == 2) {
        loop->submit();
        loop->wait();
      } else if (mode == 3 && g.boolean())
        loop->execute(a);
      else
        loop->execute(a, b);
    };
#define ARGS                                                                   \
  Access::read(ParticlePairLoopIndex{}),                                       \
      Access::A(Access::read(Sym<INT>("ID"))),                                 \
      Access::B(Access::read(Sym<INT>("ID"))),                                 \
      Access::A(Access::write(Sym<INT>("V"))),                                 \
      Access::B(Access::write(Sym<INT>("V"))),                                 \
      Access::A(Access::write(Sym<INT>("S"))),                                 \
      Access::B(Access::write(Sym<INT>("S"))),                                 \
      Access::A(Access::read(Sym<REAL>("Q"))),                                 \
      Access::B(Access::read(Sym<REAL>("Q"))), Access::add(la)
    const int repeats = g.chance(1, 4) ? 2 : 1;
    if (kind < 2) {
      std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> v;
      for (int k = 0; k < nl; k++) {
        auto s = k == 0 ? simple0 : simple1;
        if (g.chance(1, 4))
          s = std::make_shared<CellwisePairListSimple>(target(), pop.ncell);
        else
          s->clear();
        auto check_list = [&](const Lists &l, const std::string &when) {
          INT n = 0;
          for (auto &c : l)
            n += c.size();
          auto d = s->get_pair_list();
          g.ck(d.pair_count == n, when, ": pair_count is ", d.pair_count,
               ", expected ", n);
          auto m = s->get_host_pair_list();
          for (int c = 0; c < pop.ncell; c++) {
            std::multiset<std::pair<int, int>> want, have;
            for (auto &p : l[c])
              want.insert(same && kind == 1
                              ? std::pair<int, int>(std::minmax(p.i, p.j))
                              : std::pair<int, int>(p.i, p.j));
            if (m.count(c))
              for (auto &w : m[c]) {
                std::set<int> si, sj;
                g.ck(w.second.first.size() == w.second.second.size(),
                     when, ": wave sizes differ");
                for (std::size_t x = 0; x < w.second.first.size(); x++) {
                  const int i = w.second.first[x], j = w.second.second[x];
                  have.insert({i, j});
                  const bool fresh = si.insert(i).second &
                                     (same ? si.insert(j).second
                                           : sj.insert(j).second);
                  g.ck(fresh, when, ": cell ", c, " wave ", w.first,
                       " uses a particle twice");
                }
              }
            g.ck(want == have, when, ": host pair list of cell ", c, " has ",
                 have.size(), " pairs, expected ", want.size());
          }
        };
        check_list(Lists(pop.ncell), "cleared list");
        if (kind == 0) { // several calls
          const int calls = (int)g.integer(1, 3);
          Lists sofar(pop.ncell);
          for (int q = 0; q < calls; q++) {
            std::vector<int> c, i, j;
            for (int cx = 0; cx < pop.ncell; cx++)
              for (std::size_t p = 0; p < ls[k][cx].size(); p++)
                if ((int)(pbt::hash(salt, cx, p, 31) % calls) == q) {
                  c.push_back(cx);
                  i.push_back(ls[k][cx][p].i);
                  j.push_back(ls[k][cx][p].j);
                  sofar[cx].push_back(ls[k][cx][p]);
                }
            if (g.boolean()) { // cells in a mixed order
              std::vector<std::size_t> o(c.size());
              std::iota(o.begin(), o.end(), 0);
              for (std::size_t x = o.size(); x > 1; x--)
                std::swap(o[x - 1], o[pbt::hash(salt, x, 41) % x]);
              std::vector<int> c2, i2, j2;
              for (auto x : o) {
                c2.push_back(c[x]);
                i2.push_back(i[x]);
                j2.push_back(j[x]);
              }
              c = c2, i = i2, j = j2;
            }
            s->push_back(c, i, j);
            check_list(sofar, "push_back");
          }
        } else {
          auto h = k == 0 ? host : host1;
          if (g.chance(1, 4))
            h = std::make_shared<CellwisePairListHost>(pop.ncell);
          else
            h->clear();
          for (int cx = 0; cx < pop.ncell; cx++)
            for (auto &p : ls[k][cx])
              h->push_back(cx, p.i, p.j);
          s->set(h);
          check_list(ls[k], "set");
        }
        v.push_back(CellwisePairListAbsolute<ParticleGroup, CellwisePairList>(
            A, second, s));
      }
      auto loop = g.boolean() ? particle_pair_loop("c10", v, kernel, ARGS)
                              : particle_pair_loop(v, kernel, ARGS);
      for (int r = 0; r < repeats; r++)
        launch(loop);
    } else {
      std::vector<
          CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>>
          v;
      for (int k = 0; k < nl; k++) {
        auto s = std::make_shared<BlockList>(block, ls[k]);
        v.push_back(CellwisePairListAbsolute<ParticleGroup,
                                             CellwisePairListBlockInterface>(
            A, A, s));
        if (s->count == 0)
          continue;
        g.ck(s->validate_pair_list(target()),
             "a valid blocked pair list was reported invalid");
        auto m = s->get_host_pair_list(target());
        std::vector<int> occ(block + 1, 0), got;
        int waves = 0;
        REAL sum = 0;
        for (int c = 0; c < pop.ncell; c++) {
          auto &t = m[c];
          g.ck(std::get<0>(t).size() == ls[k][c].size() &&
                   std::get<1>(t).size() == ls[k][c].size() &&
                   std::get<2>(t).size() == ls[k][c].size(),
               "host list of cell ", c, " has the wrong length");
          for (std::size_t p = 0; p < ls[k][c].size() && !g.failed; p++)
            g.ck(std::get<0>(t)[p] == ls[k][c][p].i &&
                     std::get<1>(t)[p] == ls[k][c][p].j &&
                     std::get<2>(t)[p] == ls[k][c][p].w,
                 "host list entry ", p, " of cell ", c);
          for (std::size_t p = 0; p < ls[k][c].size(); p += block) {
            std::map<int, int> n;
            int mw = 0;
            for (std::size_t q = p; q < std::min(p + block, ls[k][c].size());
                 q++) {
              n[ls[k][c][q].w]++;
              mw = std::max(mw, ls[k][c][q].w);
            }
            for (int w = 0; w <= mw; w++) {
              occ[n[w]]++;
              waves++;
              sum += n[w];
            }
          }
        }
        s->get_wave_occupancy_counts(target(), got);
        g.ck(got == occ, "wave occupancy counts ", np::str(got), " expected ",
             np::str(occ));
        const REAL mean = get_mean_wave_occupancy(got);
        const REAL want = waves ? sum / ((REAL)block * waves) : 0.0;
        g.ck(std::abs(mean - want) < 1e-12, "mean wave occupancy ", mean,
             " expected ", want);
        if (g.chance(1, 3) && block > 1) { // a broken list must be reported
          Lists bad = ls[k];
          bool broken = false;
          for (auto &cl : bad)
            for (std::size_t p = 1; p < cl.size() && !broken; p++)
              if (p / block == (p - 1) / block &&
                  (cl[p].i == cl[p - 1].i || cl[p].i == cl[p - 1].j ||
                   cl[p].j == cl[p - 1].i || cl[p].j == cl[p - 1].j)) {
                cl[p].w = cl[p - 1].w;
                broken = true;
              }
          if (broken) {
            BlockList bl(block, bad);
            g.ck(!bl.validate_pair_list(target()),
                 "a blocked pair list with a conflict was reported valid");
            g.label("broken list");
          }
        }
      }
      auto loop = g.boolean() ? particle_pair_loop("c10", v, kernel, ARGS)
                              : particle_pair_loop(v, kernel, ARGS);
      for (int r = 0; r < repeats; r++)
        launch(loop);
    }
    g.sync();
    if (g.failed)
      return;
    // ---- oracle
    const INT n = cnt.get().at(0);
    auto L = log.get();
    if (!g.ck(n == in_range * repeats, "the kernel ran ", n, " times, expected ",
              in_range * repeats))
      return;
    std::map<std::pair<INT, INT>, int> want;
    for (auto &l : ls)
      for (int c = a; c < b; c++)
        for (auto &p : l[c]) {
          INT x = idsA[c][p.i], y = idsS[c][p.j];
          if (kind == 1 && p.i > p.j)
            std::swap(x, y);
          want[{x, y}] += repeats;
        }
    std::map<INT, std::map<INT, int>> seen; // id -> version -> call
    std::map<INT, int> lin;
    INT sum = 0;
    for (INT k = 0; k < n; k++) {
      const INT *e = &L[k * 6];
      if (!g.ck(want[{e[0], e[1]}]-- > 0, "unexpected pair of ids ", e[0], " ",
                e[1]))
        return;
      g.ck(e[5] == 1, "pair ", e[0], " ", e[1],
           ": other properties of the particles do not belong to them");
      if (!g.ck(seen[e[0]].emplace(e[2], k).second, "two pairs saw version ",
                e[2], " of particle ", e[0]) ||
          !g.ck(seen[e[1]].emplace(e[3], k).second, "two pairs saw version ",
                e[3], " of particle ", e[1]))
        return;
      g.ck(e[4] >= 0 && e[4] < total, "pair linear index ", e[4], " of ", total);
      g.ck(++lin[e[4]] <= repeats, "pair linear index ", e[4],
           " given to two pairs");
      sum += e[0] * 3 + e[1];
    }
    auto lav = la->get();
    g.ck(lav[0] == n && lav[2] == sum, "LocalArray sums ", lav[0], " ", lav[2],
         " expected ", n, " ", sum);
    // apply the calls in an order that respects the versions
    std::map<INT, INT> done;
    std::map<INT, INT> partner;
    std::vector<char> applied(n, 0);
    std::vector<INT> todo;
    auto ready = [&](INT k) {
      return !applied[k] && done[L[k * 6]] == L[k * 6 + 2] &&
             done[L[k * 6 + 1]] == L[k * 6 + 3];
    };
    for (INT k = 0; k < n; k++)
      if (ready(k))
        todo.push_back(k);
    INT napplied = 0;
    while (!todo.empty()) {
      const INT k = todo.back();
      todo.pop_back();
      if (!ready(k))
        continue;
      applied[k] = 1;
      napplied++;
      const INT x = L[k * 6], y = L[k * 6 + 1];
      const INT sx = state[x].s, sy = state[y].s;
      state[x].s = mix(sx, sy, 0);
      state[y].s = mix(sy, sx, 1);
      partner[x] = y;
      partner[y] = x;
      for (INT id : {x, y}) {
        const INT v = ++done[id];
        auto f = seen[id].find(v);
        if (f != seen[id].end() && ready(f->second))
          todo.push_back(f->second);
      }
    }
    if (!g.ck(napplied == n, "no serial order of the pairs explains the "
                             "versions which the kernels saw"))
      return;
    for (auto G : {A, B}) {
      auto &ids = G == A ? idsA : idsB;
      for (int c = 0; c < pop.ncell; c++) {
        if (ids[c].empty())
          continue;
        auto V = G->get_cell(Sym<INT>("V"), c);
        auto S = G->get_cell(Sym<INT>("S"), c);
        auto I = G->get_cell(Sym<INT>("ID"), c);
        for (std::size_t l = 0; l < ids[c].size() && !g.failed; l++) {
          const INT id = ids[c][l];
          g.ck(I->at(l, 0) == id, "ids changed");
          g.ck(V->at(l, 0) == done[id], "particle ", id, " was updated ",
               V->at(l, 0), " times, expected ", done[id]);
          g.ck(S->at(l, 0) == state[id].s, "particle ", id,
               " does not hold the state of the serial order");
          const INT pt = partner.count(id) ? partner[id] : -1;
          g.ck(S->at(l, 1) == pt, "particle ", id, " last partner ",
               S->at(l, 1), " expected ", pt);
        }
      }
    }
    if (in_range > 0)
      nontrivial = true;
    g.label(kind == 0 ? "push_back" : kind == 1 ? "waves" : "blocks");
    g.sync();
    if (g.failed)
      return;
  }
  g.mark(nontrivial);
}

} // namespace

PBT_MAIN("C10", run)
