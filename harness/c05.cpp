// C05: loop data arguments deliver reads, writes and reductions exactly.
// Containers live through a sequence of loops and host calls next to a host
// model; all sums are of dyadic values, so they are exact in any order.
#include "pop.hpp"
using namespace np;

namespace {
struct Val {
  uint64_t salt;
  INT i(INT id, int k) const {
    return (INT)(pbt::hash(salt, (uint64_t)id, k) % 2001) - 1000;
  }
  REAL r(INT id, int k) const {
    return (REAL)((INT)(pbt::hash(salt, (uint64_t)id, k, 9) % 4001) - 2000) *
           0.125;
  }
  int slot(INT id, int k, int n) const {
    return (int)(pbt::hash(salt, (uint64_t)id, k, 31) % (uint64_t)n);
  }
};

template <typename T> using Mat = std::vector<std::vector<T>>; // cell -> row+nrow*col

struct World {
  Pop pop;
  int nI, nR, n2[2], n3[3], gI, gR, cr, cc, cdc_cols;
  std::shared_ptr<LocalArray<INT>> laI, laW;
  std::shared_ptr<LocalArray<REAL>> laR;
  std::shared_ptr<LocalArray<int>> lai;
  std::shared_ptr<NDLocalArray<INT, 2>> nd2;
  std::shared_ptr<NDLocalArray<REAL, 3>> nd3;
  std::shared_ptr<GlobalArray<INT>> gaI;
  std::shared_ptr<GlobalArray<REAL>> gaR;
  std::shared_ptr<CellDatConst<INT>> ccI;
  std::shared_ptr<CellDatConst<REAL>> ccR;
  std::shared_ptr<CellDat<REAL>> cdR;
  std::vector<int> cd_rows;
  // model
  std::vector<INT> mI, mW, m2, mgI;
  std::vector<int> mi;
  std::vector<REAL> mR, m3, mgR;
  Mat<INT> mcI;
  Mat<REAL> mcR, mcd;
  std::map<INT, std::vector<INT>> datI; // id -> values of properties DI (4)
  std::map<INT, std::vector<REAL>> datR;
  std::map<INT, std::vector<INT>> svI; // three properties of the SymVector
  std::map<INT, std::vector<REAL>> svR;
};

template <typename T>
bool cmp(Gen &g, const std::vector<T> &got, const std::vector<T> &want,
         const std::string &what, const std::string &when) {
  if (!g.ck(got.size() == want.size(), when, " ", what, " has ", got.size(),
            " elements, expected ", want.size()))
    return false;
  for (std::size_t i = 0; i < got.size(); i++)
    if (!g.ck(got[i] == want[i], when, " ", what, " element ", i, " = ", got[i],
              ", expected ", want[i]))
      return false;
  return true;
}

void verify(Gen &g, World &w, const std::string &when) {
  cmp(g, w.laI->get(), w.mI, "LocalArray<INT>", when);
  cmp(g, w.laR->get(), w.mR, "LocalArray<REAL>", when);
  cmp(g, w.lai->get(), w.mi, "LocalArray<int>", when);
  cmp(g, w.laW->get(), w.mW, "LocalArray<INT> (written)", when);
  cmp(g, w.nd2->get(), w.m2, "NDLocalArray<INT,2>", when);
  cmp(g, w.nd3->get(), w.m3, "NDLocalArray<REAL,3>", when);
  cmp(g, w.gaI->get(), w.mgI, "GlobalArray<INT>", when);
  cmp(g, w.gaR->get(), w.mgR, "GlobalArray<REAL>", when);
  auto ai = w.ccI->get_all_cells();
  auto ar = w.ccR->get_all_cells();
  for (int c = 0; c < w.pop.ncell && !g.failed; c++) {
    auto oi = w.ccI->get_cell(c);
    for (int col = 0; col < w.cdc_cols; col++)
      for (int r = 0; r < w.cr; r++) {
        g.ck(ai[c]->at(r, col) == w.mcI[c][r + w.cr * col], when,
             " CellDatConst<INT> cell ", c, " row ", r, " col ", col, " = ",
             ai[c]->at(r, col), ", expected ", w.mcI[c][r + w.cr * col]);
        g.ck(oi->at(r, col) == ai[c]->at(r, col), when,
             " get_cell and get_all_cells differ in cell ", c);
        g.ck(ar[c]->at(r, col) == w.mcR[c][r + w.cr * col], when,
             " CellDatConst<REAL> cell ", c, " row ", r, " col ", col, " = ",
             ar[c]->at(r, col), ", expected ", w.mcR[c][r + w.cr * col]);
      }
    auto cd = w.cdR->get_cell(c);
    g.ck(cd->nrow == w.cd_rows[c], when, " CellDat rows of cell ", c);
    for (int col = 0; col < w.cc && !g.failed; col++)
      for (int r = 0; r < w.cd_rows[c]; r++)
        g.ck(cd->at(r, col) == w.mcd[c][r + w.cd_rows[c] * col], when,
             " CellDat cell ", c, " row ", r, " col ", col, " = ",
             cd->at(r, col), ", expected ", w.mcd[c][r + w.cd_rows[c] * col]);
  }
  auto di = read_dat<INT>(w.pop, "DI");
  auto dr = read_dat<REAL>(w.pop, "DR");
  for (std::size_t p = 0; p < w.pop.parts.size() && !g.failed; p++) {
    const INT id = w.pop.parts[p].id;
    g.ck(di[p] == w.datI[id], when, " property DI of particle ", id, " = ",
         np::str(di[p]), ", expected ", np::str(w.datI[id]));
    g.ck(same(dr[p], w.datR[id]), when, " property DR of particle ", id, " = ",
         np::str(dr[p]), ", expected ", np::str(w.datR[id]));
  }
  for (int k = 0; k < 3 && !g.failed; k++) {
    auto si = read_dat<INT>(w.pop, "SI" + std::to_string(k));
    auto sr = read_dat<REAL>(w.pop, "SR" + std::to_string(k));
    for (std::size_t p = 0; p < w.pop.parts.size() && !g.failed; p++) {
      const INT id = w.pop.parts[p].id;
      for (int c = 0; c < 2; c++) {
        g.ck(si[p][c] == w.svI[id][2 * k + c], when, " property SI", k,
             " of particle ", id, " component ", c, " = ", si[p][c],
             ", expected ", w.svI[id][2 * k + c]);
        g.ck(sr[p][c] == w.svR[id][2 * k + c], when, " property SR", k,
             " of particle ", id, " component ", c, " = ", sr[p][c],
             ", expected ", w.svR[id][2 * k + c]);
      }
    }
  }
  g.sync();
}

template <typename T> T comb(int op, T a, T b) {
  return op == 0 ? a + b : op == 1 ? std::min(a, b) : std::max(a, b);
}

void prop(Gen &g) {
  World w;
  auto &pop = w.pop;
  CartMesh::Opts mo;
  mo.max_stencil = 0;
  mo.max_subdiv = 1;
  ParticleSpec extra{ParticleProp(Sym<INT>("DI"), 4),
                     ParticleProp(Sym<REAL>("DR"), 4)};
  for (int k = 0; k < 3; k++) {
    extra.push(ParticleProp(Sym<INT>("SI" + std::to_string(k)), 2));
    extra.push(ParticleProp(Sym<REAL>("SR" + std::to_string(k)), 2));
  }
  pop.gen(g, mo, extra, 200, false, 1500);
  // the reductions ask for a power of two
  set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 2, 4, 8, 128}));
  auto &t = target();
  auto &A = pop.A;
  const int ncell = pop.ncell;
  const int np_ = (int)pop.parts.size();
  for (auto &p : pop.parts) {
    for (int k = 0; k < 4; k++) {
      w.datI[p.id].push_back(Pop::init_i(p.id, "DI", k));
      w.datR[p.id].push_back(Pop::init_r(p.id, "DR", k));
    }
    for (int k = 0; k < 3; k++)
      for (int c = 0; c < 2; c++) {
        w.svI[p.id].push_back(Pop::init_i(p.id, "SI" + std::to_string(k), c));
        w.svR[p.id].push_back(Pop::init_r(p.id, "SR" + std::to_string(k), c));
      }
  }
  w.nI = (int)g.size(1, 70);
  w.nR = (int)g.size(1, 40);
  w.n2[0] = (int)g.integer(1, 7);
  w.n2[1] = (int)g.integer(1, 7);
  for (int d = 0; d < 3; d++)
    w.n3[d] = (int)g.integer(1, 5);
  w.gI = (int)g.size(1, 30);
  w.gR = (int)g.size(1, 30);
  w.cr = (int)g.integer(1, 6);
  w.cdc_cols = (int)g.integer(1, 5);
  w.cc = (int)g.integer(1, 4);
  const INT i0 = g.integer(-5, 5);
  w.laI = std::make_shared<LocalArray<INT>>(t, w.nI, i0);
  w.laR = std::make_shared<LocalArray<REAL>>(t, std::vector<REAL>(w.nR, 2.0));
  w.lai = std::make_shared<LocalArray<int>>(t, w.nI);
  w.laW = std::make_shared<LocalArray<INT>>(t, np_ + 3, -1);
  w.nd2 = std::make_shared<NDLocalArray<INT, 2>>(t, w.n2[0], w.n2[1]);
  w.nd3 = std::make_shared<NDLocalArray<REAL, 3>>(t, w.n3[0], w.n3[1], w.n3[2]);
  w.gaI = std::make_shared<GlobalArray<INT>>(t, w.gI);
  w.gaR = std::make_shared<GlobalArray<REAL>>(t, w.gR, 1.5);
  w.ccI = std::make_shared<CellDatConst<INT>>(t, ncell, w.cr, w.cdc_cols);
  w.ccR = std::make_shared<CellDatConst<REAL>>(t, ncell, w.cr, w.cdc_cols);
  w.cdR = std::make_shared<CellDat<REAL>>(t, ncell, w.cc);
  const uint64_t rowsalt = g.seed32();
  w.cd_rows.resize(ncell);
  w.mcd.resize(ncell);
  for (int c = 0; c < ncell; c++) {
    // at least one row per particle, sometimes more
    w.cd_rows[c] = std::max(1, (int)A->get_npart_cell(c)) +
                   (int)(pbt::hash(rowsalt, c) % 3);
    w.cdR->set_nrow(c, w.cd_rows[c]);
  }
  w.cdR->wait_set_nrow();
  for (int c = 0; c < ncell; c++) {
    auto cd = std::make_shared<CellDataT<REAL>>(t, w.cd_rows[c], w.cc);
    w.mcd[c].assign(w.cd_rows[c] * w.cc, 0.0);
    for (int col = 0; col < w.cc; col++)
      for (int r = 0; r < w.cd_rows[c]; r++)
        cd->at(r, col) = w.mcd[c][r + w.cd_rows[c] * col] =
            (REAL)(pbt::hash(rowsalt, c, r, col) % 64);
    w.cdR->set_cell(c, cd);
  }
  w.mI.assign(w.nI, i0);
  w.mR.assign(w.nR, 2.0);
  w.mi.assign(w.nI, 0);
  w.mW.assign(np_ + 3, -1);
  w.m2.assign(w.n2[0] * w.n2[1], 0);
  w.m3.assign(w.n3[0] * w.n3[1] * w.n3[2], 0.0);
  w.mgI.assign(w.gI, 0);
  w.mgR.assign(w.gR, 1.5);
  w.mcI.assign(ncell, std::vector<INT>(w.cr * w.cdc_cols, 0));
  w.mcR.assign(ncell, std::vector<REAL>(w.cr * w.cdc_cols, 0.0));
  const auto sub = gen_sub(g, pop);
  g.note("sub group ", sub.name, " sizes ", w.nI, " ", w.nR, " nd ", w.n2[0],
         "x", w.n2[1], " ", w.n3[0], "x", w.n3[1], "x", w.n3[2], " global ",
         w.gI, " ", w.gR, " cdc ", w.cr, "x", w.cdc_cols);
  verify(g, w, "initially");
  std::map<INT, INT> lin; // id -> local linear index
  for (int i = 0; i < np_; i++)
    lin[pop.parts[i].id] = i;

  auto svi = std::make_shared<SymVector<INT>>();
  int sv_perm[3] = {0, 1, 2};

  const int nops = (int)g.integer(1, 9);
  for (int op = 0; op < nops; op++) {
    const int kind = g.weighted({4, 3, 4, 3, 5, 3, 3, 2, 3});
    const Val v{g.seed32()};
    const bool use_sub = g.boolean();
    const int rmode = (int)g.draw(3);
    const int ra = (int)(g.draw(1000) % (ncell + 1));
    const int rb = ra + (int)(g.draw(1000) % (ncell - ra + 1));
    int lo = 0, hi = ncell;
    if (getenv("PBT_VERBOSE"))
      fprintf(stderr, "op %d kind %d sub %d rmode %d %d %d\n", op, kind,
              (int)use_sub, rmode, ra, rb);
    std::ostringstream ws;
    ws << "op " << op << " kind " << kind << (use_sub ? " sub group" : " group");
    auto run = [&](ParticleLoopSharedPtr loop) {
      if (rmode == 0)
        loop->execute();
      else if (rmode == 1 && ra < ncell) {
        loop->execute(ra);
        lo = ra;
        hi = ra + 1;
      } else {
        loop->execute(ra, rb);
        lo = ra;
        hi = rb;
      }
      if (!(lo == 0 && hi == ncell))
        ws << " cells [" << lo << "," << hi << ")";
    };
    auto in = [&](const PartInfo &p) {
      return p.cell >= lo && p.cell < hi && (!use_sub || sub.in(p));
    };
    auto any = [&]() {
      for (auto &p : pop.parts)
        if (in(p)) {
          g.mark();
          break;
        }
    };
#define OVER(...)                                                              \
  run(use_sub ? particle_loop("c05", sub.s, __VA_ARGS__)                       \
              : particle_loop("c05", A, __VA_ARGS__))

    if (kind == 0) { // adds
      g.label("add");
      const int nI = w.nI, nR = w.nR, a2 = w.n2[0], b2 = w.n2[1], gI = w.gI,
                gR = w.gR, cr = w.cr, cc = w.cdc_cols, cdc = w.cc;
      std::vector<INT> before = w.mI;
      OVER(
          [=](auto ID, auto DI, auto LI, auto LR, auto Li, auto N2, auto GI,
              auto GR, auto CI, auto CR, auto CD) {
            const INT id = ID.at(0);
            DI.at(0) = LI.fetch_add(v.slot(id, 0, nI), 1);
            LR.fetch_add(v.slot(id, 1, nR), v.r(id, 1));
            Li.fetch_add(v.slot(id, 2, nI), (int)v.i(id, 2));
            N2.fetch_add(v.slot(id, 3, a2), v.slot(id, 4, b2), v.i(id, 3));
            GI.add(v.slot(id, 5, gI), v.i(id, 5));
            GR.add(v.slot(id, 6, gR), v.r(id, 6));
            DI.at(1) = CI.fetch_add(v.slot(id, 7, cr), v.slot(id, 8, cc), 1);
            CR.fetch_add(v.slot(id, 9, cr), v.slot(id, 10, cc), v.r(id, 9));
            CD.fetch_add(0, v.slot(id, 11, cdc), v.r(id, 11));
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("DI")),
          Access::add(w.laI), Access::add(w.laR), Access::add(w.lai),
          Access::add(w.nd2), Access::add(w.gaI), Access::add(w.gaR),
          Access::add(w.ccI), Access::add(w.ccR), Access::add(w.cdR));
      any();
      auto di = read_dat<INT>(pop, "DI");
      std::map<int, std::set<INT>> old0;
      std::map<std::pair<INT, int>, std::set<INT>> old1;
      auto bI = w.mI;
      auto bcI = w.mcI;
      std::vector<INT> dgI(gI, 0);
      std::vector<REAL> dgR(gR, 0.0);
      for (int i = 0; i < np_; i++) {
        auto &p = pop.parts[i];
        if (!in(p))
          continue;
        const INT id = p.id;
        w.mI[v.slot(id, 0, nI)] += 1;
        w.mR[v.slot(id, 1, nR)] += v.r(id, 1);
        w.mi[v.slot(id, 2, nI)] += (int)v.i(id, 2);
        w.m2[v.slot(id, 3, a2) * b2 + v.slot(id, 4, b2)] += v.i(id, 3);
        dgI[v.slot(id, 5, gI)] += v.i(id, 5);
        dgR[v.slot(id, 6, gR)] += v.r(id, 6);
        w.mcI[p.cell][v.slot(id, 7, cr) + cr * v.slot(id, 8, cc)] += 1;
        w.mcR[p.cell][v.slot(id, 9, cr) + cr * v.slot(id, 10, cc)] += v.r(id, 9);
        w.mcd[p.cell][w.cd_rows[p.cell] * v.slot(id, 11, cdc)] += v.r(id, 11);
        // values returned by the atomics: each earlier value exactly once
        const int s0 = v.slot(id, 0, nI);
        const int s1 = v.slot(id, 7, cr) + cr * v.slot(id, 8, cc);
        g.ck(old0[s0].insert(di[i][0]).second, ws.str(),
             " fetch_add on LocalArray returned ", di[i][0], " twice");
        g.ck(old1[{p.cell, s1}].insert(di[i][1]).second, ws.str(),
             " fetch_add on CellDatConst returned ", di[i][1], " twice");
        w.datI[id][0] = di[i][0];
        w.datI[id][1] = di[i][1];
      }
      for (auto &o : old0)
        g.ck(*o.second.begin() == bI[o.first] &&
                 *o.second.rbegin() == w.mI[o.first] - 1,
             ws.str(), " fetch_add values of slot ", o.first, " span ",
             *o.second.begin(), "..", *o.second.rbegin());
      for (auto &o : old1)
        g.ck(*o.second.begin() == bcI[o.first.first][o.first.second] &&
                 *o.second.rbegin() ==
                     w.mcI[o.first.first][o.first.second] - 1,
             ws.str(), " CellDatConst fetch_add values");
      std::vector<INT> aI(gI);
      std::vector<REAL> aR(gR);
      MPI_Allreduce(dgI.data(), aI.data(), gI, MPI_INT64_T, MPI_SUM,
                    MPI_COMM_WORLD);
      MPI_Allreduce(dgR.data(), aR.data(), gR, MPI_DOUBLE, MPI_SUM,
                    MPI_COMM_WORLD);
      for (int i = 0; i < gI; i++)
        w.mgI[i] += aI[i];
      for (int i = 0; i < gR; i++)
        w.mgR[i] += aR[i];
    } else if (kind == 1) { // min, max, nd3 add
      g.label("min max");
      const int cr = w.cr, cc = w.cdc_cols;
      const int a = w.n3[0], b = w.n3[1], c = w.n3[2];
      OVER(
          [=](auto ID, auto MN, auto MX, auto N3) {
            const INT id = ID.at(0);
            MN.fetch_min(v.slot(id, 0, cr), v.slot(id, 1, cc), v.r(id, 0));
            MX.fetch_max(v.slot(id, 2, cr), v.slot(id, 3, cc), v.i(id, 2));
            N3.fetch_add(v.slot(id, 4, a), v.slot(id, 5, b), v.slot(id, 6, c),
                         v.r(id, 4));
          },
          Access::read(Sym<INT>("ID")), Access::min(w.ccR), Access::max(w.ccI),
          Access::add(w.nd3));
      any();
      for (auto &p : pop.parts) {
        if (!in(p))
          continue;
        const INT id = p.id;
        auto &x = w.mcR[p.cell][v.slot(id, 0, cr) + cr * v.slot(id, 1, cc)];
        x = std::min(x, v.r(id, 0));
        auto &y = w.mcI[p.cell][v.slot(id, 2, cr) + cr * v.slot(id, 3, cc)];
        y = std::max(y, v.i(id, 2));
        w.m3[(v.slot(id, 4, a) * b + v.slot(id, 5, b)) * c + v.slot(id, 6, c)] +=
            v.r(id, 4);
      }
    } else if (kind == 2) { // reads
      g.label("read");
      const int nI = w.nI, nR = w.nR, a2 = w.n2[0], b2 = w.n2[1], gI = w.gI,
                gR = w.gR, cr = w.cr, cc = w.cdc_cols, cdc = w.cc;
      const int a = w.n3[0], b = w.n3[1], c = w.n3[2];
      OVER(
          [=](auto ID, auto DI, auto DR, auto LI, auto LR, auto N2, auto N3,
              auto GI, auto GR, auto CI, auto CR, auto CD) {
            const INT id = ID.at(0);
            DI.at(0) = LI.at(v.slot(id, 0, nI));
            DI.at(1) = N2.at(v.slot(id, 1, a2), v.slot(id, 2, b2));
            DI.at(2) = GI.at(v.slot(id, 3, gI));
            DI.at(3) = CI.at(v.slot(id, 4, cr), v.slot(id, 5, cc));
            DR.at(0) = LR.at(v.slot(id, 6, nR));
            DR.at(1) = N3.at(v.slot(id, 7, a), v.slot(id, 8, b), v.slot(id, 9, c));
            DR.at(2) = GR.at(v.slot(id, 10, gR));
            DR.at(3) = CR.at(v.slot(id, 11, cr), v.slot(id, 12, cc)) -
                       CD.at(0, v.slot(id, 13, cdc));
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("DI")),
          Access::write(Sym<REAL>("DR")), Access::read(w.laI),
          Access::read(w.laR), Access::read(w.nd2), Access::read(w.nd3),
          Access::read(w.gaI), Access::read(w.gaR), Access::read(w.ccI),
          Access::read(w.ccR), Access::read(w.cdR));
      any();
      for (auto &p : pop.parts) {
        if (!in(p))
          continue;
        const INT id = p.id;
        auto &x = w.datI[id];
        auto &y = w.datR[id];
        x[0] = w.mI[v.slot(id, 0, nI)];
        x[1] = w.m2[v.slot(id, 1, a2) * b2 + v.slot(id, 2, b2)];
        x[2] = w.mgI[v.slot(id, 3, gI)];
        x[3] = w.mcI[p.cell][v.slot(id, 4, cr) + cr * v.slot(id, 5, cc)];
        y[0] = w.mR[v.slot(id, 6, nR)];
        y[1] = w.m3[(v.slot(id, 7, a) * b + v.slot(id, 8, b)) * c +
                    v.slot(id, 9, c)];
        y[2] = w.mgR[v.slot(id, 10, gR)];
        y[3] = w.mcR[p.cell][v.slot(id, 11, cr) + cr * v.slot(id, 12, cc)] -
               w.mcd[p.cell][w.cd_rows[p.cell] * v.slot(id, 13, cdc)];
      }
    } else if (kind == 3) { // writes to distinct elements
      g.label("write");
      const int cdc = w.cc;
      OVER(
          [=](auto ID, auto IX, auto LW, auto CD, auto CR) {
            const INT id = ID.at(0);
            LW.at((int)IX.get_local_linear_index()) = v.i(id, 0);
            CD.at((int)IX.layer, v.slot(id, 1, cdc)) = v.r(id, 1);
            if (IX.loop_layer == 0)
              CR.at(0, 0) = v.r(0, (int)IX.cell);
          },
          Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
          Access::write(w.laW), Access::write(w.cdR), Access::write(w.ccR));
      any();
      for (auto &p : pop.parts) {
        if (!in(p))
          continue;
        w.mW[lin[p.id]] = v.i(p.id, 0);
        w.mcd[p.cell][p.layer + w.cd_rows[p.cell] * v.slot(p.id, 1, cdc)] =
            v.r(p.id, 1);
        w.mcR[p.cell][0] = v.r(0, (int)p.cell);
      }
    } else if (kind == 4) { // reductions
      g.label("reduce");
      const int cr = w.cr, cc = w.cdc_cols;
      const int o = (int)g.draw(3);
      auto k = [=](auto ID, auto R, auto I) {
        const INT id = ID.at(0);
        R.combine(v.slot(id, 0, cr), v.slot(id, 1, cc), v.r(id, 0));
        R.combine(v.slot(id, 2, cr), v.slot(id, 3, cc), v.r(id, 1));
        I.combine(v.slot(id, 4, cr), v.slot(id, 5, cc), v.i(id, 2));
      };
      auto aid = Access::read(Sym<INT>("ID"));
      if (o == 0)
        OVER(k, aid, Access::reduce(w.ccR, Kernel::plus<REAL>()),
             Access::reduce(w.ccI, Kernel::plus<INT>()));
      else if (o == 1)
        OVER(k, aid, Access::reduce(w.ccR, Kernel::minimum<REAL>()),
             Access::reduce(w.ccI, Kernel::minimum<INT>()));
      else
        OVER(k, aid, Access::reduce(w.ccR, Kernel::maximum<REAL>()),
             Access::reduce(w.ccI, Kernel::maximum<INT>()));
      ws << (o == 0 ? " plus" : o == 1 ? " minimum" : " maximum");
      any();
      for (auto &p : pop.parts) {
        if (!in(p))
          continue;
        const INT id = p.id;
        auto &x = w.mcR[p.cell][v.slot(id, 0, cr) + cr * v.slot(id, 1, cc)];
        x = comb(o, x, v.r(id, 0));
        auto &y = w.mcR[p.cell][v.slot(id, 2, cr) + cr * v.slot(id, 3, cc)];
        y = comb(o, y, v.r(id, 1));
        auto &z = w.mcI[p.cell][v.slot(id, 4, cr) + cr * v.slot(id, 5, cc)];
        z = comb(o, z, v.i(id, 2));
      }
    } else if (kind == 5) { // symbol vectors
      g.label("sym vector");
      const int n = (int)g.integer(1, 3);
      const int rot = (int)g.draw(3);
      std::vector<Sym<INT>> si;
      std::vector<Sym<REAL>> sr;
      for (int k = 0; k < n; k++) {
        sv_perm[k] = (k + rot) % 3;
        si.push_back(Sym<INT>("SI" + std::to_string(sv_perm[k])));
        sr.push_back(Sym<REAL>("SR" + std::to_string(sv_perm[k])));
      }
      const bool rd = g.boolean();
      if (!rd) {
        OVER(
            [=](auto ID, auto SI, auto SR) {
              const INT id = ID.at(0);
              for (int k = 0; k < n; k++) {
                SI.at(k, 1) = v.i(id, k);
                SR.at(k, v.slot(id, k, 2)) = v.r(id, k);
              }
            },
            Access::read(Sym<INT>("ID")),
            Access::write(sym_vector<INT>(A, si)),
            Access::write(sym_vector<REAL>(A, sr)));
        for (auto &p : pop.parts)
          if (in(p))
            for (int k = 0; k < n; k++) {
              w.svI[p.id][2 * sv_perm[k] + 1] = v.i(p.id, k);
              w.svR[p.id][2 * sv_perm[k] + v.slot(p.id, k, 2)] = v.r(p.id, k);
            }
      } else {
        OVER(
            [=](auto ID, auto IX, auto DI, auto DR, auto SI, auto SR) {
              const INT id = ID.at(0);
              const int k = v.slot(id, 0, n);
              DI.at(0) = SI.at(k, 0);
              DI.at(1) = SI.at(k, IX, 1);
              DI.at(2) = SI.at(k, (int)IX.cell, (int)IX.layer, 0);
              DR.at(0) = SR.at(k, 1);
            },
            Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
            Access::write(Sym<INT>("DI")), Access::write(Sym<REAL>("DR")),
            Access::read(sym_vector<INT>(A, si)),
            Access::read(sym_vector<REAL>(A, sr)));
        for (auto &p : pop.parts)
          if (in(p)) {
            const int k = sv_perm[v.slot(p.id, 0, n)];
            w.datI[p.id][0] = w.svI[p.id][2 * k];
            w.datI[p.id][1] = w.svI[p.id][2 * k + 1];
            w.datI[p.id][2] = w.svI[p.id][2 * k];
            w.datR[p.id][0] = w.svR[p.id][2 * k + 1];
          }
      }
      any();
      if (g.chance(1, 4)) { // replace a property by a fresh one of that name
        const int k = (int)g.draw(3);
        const std::string nI = "SI" + std::to_string(k), nR = "SR" + std::to_string(k);
        A->remove_particle_dat(Sym<INT>(nI));
        A->remove_particle_dat(Sym<REAL>(nR));
        A->add_particle_dat(ParticleDat(t, ParticleProp(Sym<INT>(nI), 2), ncell));
        A->add_particle_dat(ParticleDat(t, ParticleProp(Sym<REAL>(nR), 2), ncell));
        particle_loop(
            A,
            [=](auto ID, auto SI, auto SR) {
              for (int c = 0; c < 2; c++) {
                SI.at(c) = v.i(ID.at(0), 50 + c);
                SR.at(c) = v.r(ID.at(0), 50 + c);
              }
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>(nI)),
            Access::write(Sym<REAL>(nR)))
            ->execute();
        for (auto &p : pop.parts)
          for (int c = 0; c < 2; c++) {
            w.svI[p.id][2 * k + c] = v.i(p.id, 50 + c);
            w.svR[p.id][2 * k + c] = v.r(p.id, 50 + c);
          }
        ws << " and property " << k << " replaced";
      }
    } else if (kind == 8) { // device particle sets and product matrices
      g.label("particle set device");
      const int few = (int)g.size(1, 40);
      const int rows = std::max(few, np_);
      const int cA = (int)g.integer(1, 3), cB = (int)g.integer(1, 3);
      const int cC = (int)g.integer(1, 3), cD = (int)g.integer(1, 3);
      ParticleSpec spec{ParticleProp(Sym<REAL>("A"), cA),
                        ParticleProp(Sym<INT>("C"), cC),
                        ParticleProp(Sym<REAL>("B"), cB),
                        ParticleProp(Sym<INT>("D"), cD)};
      std::vector<INT> mC(rows * cC, 0), mD(rows * cD, 0);
      std::vector<REAL> mA(rows * cA, 0.0), mB(rows * cB, 0.0);
      auto body = [&](auto set) {
        set->reset(rows);
        const auto start = v;
        // every row starts with known values, written by the host
        auto init = std::make_shared<ParticleSet>(rows, spec);
        for (int i = 0; i < rows; i++) {
          for (int c = 0; c < cA; c++)
            init->at(Sym<REAL>("A"), i, c) = mA[i + rows * c] = start.r(i, 20 + c);
          for (int c = 0; c < cB; c++)
            init->at(Sym<REAL>("B"), i, c) = mB[i + rows * c] = start.r(i, 25 + c);
          for (int c = 0; c < cC; c++)
            init->at(Sym<INT>("C"), i, c) = mC[i + rows * c] = start.i(i, 30 + c);
          for (int c = 0; c < cD; c++)
            init->at(Sym<INT>("D"), i, c) = mD[i + rows * c] = start.i(i, 35 + c);
        }
        set->set(init);
        OVER(
            [=](auto ID, auto DI, auto PS) {
              const INT id = ID.at(0);
              PS.fetch_add_real(v.slot(id, 0, few), 0, v.slot(id, 1, cA), v.r(id, 0));
              PS.fetch_add_real(v.slot(id, 2, few), 1, v.slot(id, 3, cB), v.r(id, 2));
              PS.fetch_add_int(v.slot(id, 4, few), 0, v.slot(id, 5, cC), v.i(id, 4));
              DI.at(0) = PS.fetch_add_int(v.slot(id, 6, few), 1, v.slot(id, 7, cD), 1);
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("DI")),
            Access::add(set));
        auto di = read_dat<INT>(pop, "DI");
        auto bD = mD;
        std::map<int, std::set<INT>> old;
        for (int i = 0; i < np_; i++) {
          auto &p = pop.parts[i];
          if (!in(p))
            continue;
          const INT id = p.id;
          mA[v.slot(id, 0, few) + rows * v.slot(id, 1, cA)] += v.r(id, 0);
          mB[v.slot(id, 2, few) + rows * v.slot(id, 3, cB)] += v.r(id, 2);
          mC[v.slot(id, 4, few) + rows * v.slot(id, 5, cC)] += v.i(id, 4);
          const int s = v.slot(id, 6, few) + rows * v.slot(id, 7, cD);
          mD[s] += 1;
          g.ck(old[s].insert(di[i][0]).second, ws.str(),
               " fetch_add_int returned ", di[i][0], " twice");
          w.datI[id][0] = di[i][0];
        }
        for (auto &o : old)
          g.ck(*o.second.begin() == bD[o.first] &&
                   *o.second.rbegin() == mD[o.first] - 1,
               ws.str(), " fetch_add_int values of element ", o.first, " span ",
               *o.second.begin(), "..", *o.second.rbegin(), ", expected ",
               bD[o.first], "..", mD[o.first] - 1);
        // every particle writes to a row of its own
        OVER(
            [=](auto ID, auto IX, auto PS) {
              const INT id = ID.at(0);
              const int row = (int)IX.get_local_linear_index();
              PS.at_real(row, 0, v.slot(id, 16, cA)) = v.r(id, 16);
              PS.at_real(row, 1, v.slot(id, 17, cB)) = v.r(id, 17);
              PS.at_int(row, 0, v.slot(id, 18, cC)) = v.i(id, 18);
              PS.at_int(row, 1, v.slot(id, 19, cD)) = v.i(id, 19);
            },
            Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
            Access::write(set));
        for (auto &p : pop.parts) {
          if (!in(p))
            continue;
          const INT id = p.id;
          const int row = (int)lin[id];
          mA[row + rows * v.slot(id, 16, cA)] = v.r(id, 16);
          mB[row + rows * v.slot(id, 17, cB)] = v.r(id, 17);
          mC[row + rows * v.slot(id, 18, cC)] = v.i(id, 18);
          mD[row + rows * v.slot(id, 19, cD)] = v.i(id, 19);
        }
        OVER(
            [=](auto ID, auto DI, auto DR, auto PS) {
              const INT id = ID.at(0);
              DI.at(1) = PS.at_int(v.slot(id, 8, rows), 0, v.slot(id, 9, cC));
              DI.at(2) = PS.at_int(v.slot(id, 10, rows), 1, v.slot(id, 11, cD));
              DR.at(0) = PS.at_real(v.slot(id, 12, rows), 0, v.slot(id, 13, cA));
              DR.at(1) = PS.at_real(v.slot(id, 14, rows), 1, v.slot(id, 15, cB));
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("DI")),
            Access::write(Sym<REAL>("DR")), Access::read(set));
        for (auto &p : pop.parts) {
          if (!in(p))
            continue;
          const INT id = p.id;
          w.datI[id][1] = mC[v.slot(id, 8, rows) + rows * v.slot(id, 9, cC)];
          w.datI[id][2] = mD[v.slot(id, 10, rows) + rows * v.slot(id, 11, cD)];
          w.datR[id][0] = mA[v.slot(id, 12, rows) + rows * v.slot(id, 13, cA)];
          w.datR[id][1] = mB[v.slot(id, 14, rows) + rows * v.slot(id, 15, cB)];
        }
        auto out = set->get();
        for (int i = 0; i < rows && !g.failed; i++) {
          for (int c = 0; c < cA; c++)
            g.ck(out->at(Sym<REAL>("A"), i, c) == mA[i + rows * c], ws.str(),
                 " device particle set, row ", i, " of A component ", c);
          for (int c = 0; c < cB; c++)
            g.ck(out->at(Sym<REAL>("B"), i, c) == mB[i + rows * c], ws.str(),
                 " device particle set, row ", i, " of B component ", c);
          for (int c = 0; c < cC; c++)
            g.ck(out->at(Sym<INT>("C"), i, c) == mC[i + rows * c], ws.str(),
                 " device particle set, row ", i, " of C component ", c);
          for (int c = 0; c < cD; c++)
            g.ck(out->at(Sym<INT>("D"), i, c) == mD[i + rows * c], ws.str(),
                 " device particle set, row ", i, " of D component ", c);
        }
      };
      auto ps = product_matrix_spec(spec);
      if (g.boolean()) {
        ws << " product matrix of " << rows;
        body(product_matrix(t, ps));
      } else {
        ws << " device particle set of " << rows;
        body(std::make_shared<ParticleSetDevice>(t, ps));
      }
      any();
    } else if (kind == 6) { // host calls on arrays
      g.label("host arrays");
      const int which = (int)g.draw(7);
      ws << " host " << which;
      if (which == 0) {
        for (auto &x : w.mI)
          x = v.i((INT)(&x - w.mI.data()), 0);
        w.laI->set(w.mI);
      } else if (which == 1) {
        for (auto &x : w.mR)
          x = v.r((INT)(&x - w.mR.data()), 0);
        w.laR->set(w.mR);
      } else if (which == 2) {
        w.mi.assign(w.nI, (int)v.i(0, 0));
        w.lai->fill(w.mi[0]);
      } else if (which == 3) {
        for (auto &x : w.m2)
          x = v.i((INT)(&x - w.m2.data()), 0);
        w.nd2->set(w.m2);
      } else if (which == 4) {
        w.m3.assign(w.m3.size(), v.r(0, 0));
        w.nd3->fill(w.m3[0]);
      } else if (which == 5) {
        w.mgI.assign(w.gI, v.i(0, 1));
        w.gaI->fill(w.mgI[0]);
        w.mgR.assign(w.gR, v.r(0, 2));
        w.gaR->fill(w.mgR[0]);
      } else {
        const int n = (int)g.size(1, 90);
        w.nI = n;
        w.laI->realloc_no_copy(n);
        w.lai->realloc_no_copy(n);
        w.mI.assign(n, 3);
        w.mi.assign(n, 4);
        g.ck((int)w.laI->size == n, "size after realloc_no_copy");
        w.laI->fill(3);
        w.lai->fill(4);
      }
    } else { // host calls on cell matrices
      g.label("host cells");
      const int which = (int)g.draw(7);
      ws << " host cells " << which;
      const int c = (int)(g.draw(1000) % ncell);
      const int r = (int)g.draw(w.cr), col = (int)g.draw(w.cdc_cols);
      if (which == 0) {
        w.mcI.assign(ncell, std::vector<INT>(w.cr * w.cdc_cols, v.i(0, 0)));
        w.ccI->fill(v.i(0, 0));
        w.mcR.assign(ncell, std::vector<REAL>(w.cr * w.cdc_cols, v.r(0, 0)));
        w.ccR->fill(v.r(0, 0));
      } else if (which == 1) { // may be larger than the matrix
        const int er = (int)g.draw(3), ec = (int)g.draw(2);
        auto cd = std::make_shared<CellDataT<REAL>>(t, w.cr + er, w.cdc_cols + ec);
        for (int j = 0; j < w.cdc_cols + ec; j++)
          for (int i = 0; i < w.cr + er; i++) {
            cd->at(i, j) = v.r(i, j);
            if (i < w.cr && j < w.cdc_cols)
              w.mcR[c][i + w.cr * j] = v.r(i, j);
          }
        w.ccR->set_cell(c, cd);
        ws << " cell " << c << " from " << w.cr + er << "x" << w.cdc_cols + ec;
        auto ce = std::make_shared<CellDataT<REAL>>(t, w.cd_rows[c] + er, w.cc + ec);
        for (int j = 0; j < w.cc + ec; j++)
          for (int i = 0; i < w.cd_rows[c] + er; i++) {
            ce->at(i, j) = v.r(i, j + 9);
            if (i < w.cd_rows[c] && j < w.cc)
              w.mcd[c][i + w.cd_rows[c] * j] = v.r(i, j + 9);
          }
        w.cdR->set_cell(c, ce);
      } else if (which == 2) {
        auto all = w.ccI->get_all_cells();
        for (int cx = 0; cx < ncell; cx++)
          for (int j = 0; j < w.cdc_cols; j++)
            for (int i = 0; i < w.cr; i++)
              all[cx]->at(i, j) = w.mcI[cx][i + w.cr * j] =
                  v.i(cx * 100 + i, j);
        w.ccI->set_all_cells(all);
      } else if (which == 3) {
        w.ccR->set_value(c, r, col, v.r(0, 0));
        w.mcR[c][r + w.cr * col] = v.r(0, 0);
        g.ck(w.ccR->get_value(c, r, col) == v.r(0, 0), "get_value");
        g.ck(w.ccI->get_value(c, r, col) == w.mcI[c][r + w.cr * col],
             "get_value of CellDatConst<INT>");
      } else if (which == 4) {
        const int row = (int)(g.draw(1000) % w.cd_rows[c]), cl = (int)g.draw(w.cc);
        w.cdR->set_value(c, row, cl, v.r(1, 1));
        w.mcd[c][row + w.cd_rows[c] * cl] = v.r(1, 1);
        g.ck(w.cdR->get_value(c, row, cl) == v.r(1, 1), "CellDat::get_value");
      } else if (which == 5) { // grow a cell: old rows keep their values
        const int more = w.cd_rows[c] + (int)g.size(1, 60);
        w.cdR->set_nrow(c, more);
        w.cdR->wait_set_nrow();
        std::vector<REAL> m(more * w.cc, 0.0);
        for (int j = 0; j < w.cc; j++)
          for (int i = 0; i < more; i++) {
            if (i < w.cd_rows[c])
              m[i + more * j] = w.mcd[c][i + w.cd_rows[c] * j];
            else {
              m[i + more * j] = 7.0;
              w.cdR->set_value(c, i, j, 7.0);
            }
          }
        w.mcd[c] = m;
        w.cd_rows[c] = more;
        ws << " cell " << c << " grows to " << more;
      } else { // shrink, keeping one row per particle
        const int least = std::max(1, (int)A->get_npart_cell(c));
        const int less = least + (int)(g.draw(1000) % (w.cd_rows[c] - least + 1));
        std::vector<REAL> m(less * w.cc, 0.0);
        for (int j = 0; j < w.cc; j++)
          for (int i = 0; i < less; i++)
            m[i + less * j] = w.mcd[c][i + w.cd_rows[c] * j];
        w.cdR->set_nrow(c, less);
        w.cdR->wait_set_nrow();
        w.mcd[c] = m;
        w.cd_rows[c] = less;
        ws << " cell " << c << " shrinks to " << less;
      }
      int mx = 0, mn = 1 << 30;
      for (auto x : w.cd_rows) {
        mx = std::max(mx, x);
        mn = std::min(mn, x);
      }
      g.ck(w.cdR->get_nrow_max() == mx && w.cdR->get_nrow_min() == mn,
           "get_nrow_max/min = ", w.cdR->get_nrow_max(), "/",
           w.cdR->get_nrow_min(), ", expected ", mx, "/", mn);
    }
    g.note(ws.str());
    verify(g, w, ws.str());
  }
}
} // namespace
PBT_MAIN("C05", prop)
