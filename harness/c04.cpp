// C04: a particle loop runs its kernel exactly once per particle of its range,
// for every occupancy pattern, launch configuration and iteration set.
#include "pop.hpp"
using namespace np;
using namespace ParticleLoopImplementation;

namespace {

// The kernel: count the visit and record what the loop says about itself.
struct Visit {
  INT salt;
  template <typename C, typename I, typename N, typename V>
  void operator()(C &CNT, I &IDX, N &NP, V &VAL) const {
    CNT.at(0) += 1;
    VAL.at(0) = IDX.cell;
    VAL.at(1) = IDX.layer;
    VAL.at(2) = IDX.loop_layer;
    VAL.at(3) = IDX.get_local_linear_index();
    VAL.at(4) = IDX.get_loop_linear_index();
    VAL.at(5) = IDX.get_sub_linear_index();
    VAL.at(6) = NP.get();
    VAL.at(7) = salt;
  }
};

void loops(Gen &g) {
  Pop pop;
  CartMesh::Opts mo;
  mo.max_stencil = 0;
  mo.max_subdiv = 1;
  pop.gen(g, mo,
          ParticleSpec{ParticleProp(Sym<INT>("CNT"), 1),
                       ParticleProp(Sym<INT>("VAL"), 8),
                       ParticleProp(Sym<REAL>("W"), 2)},
          300);
  auto &A = pop.A;
  const int ncell = pop.ncell;
  const auto sub = gen_sub(g, pop);
  if (g.boolean()) { // uneven history: some particles removed again
    const uint64_t salt = g.seed32();
    const uint64_t den = 1 + g.draw(3);
    auto rm = mask_on(A, salt, 1, den);
    A->remove_particles(rm);
    pop.refresh();
    g.note("removed 1/", den);
  }
  g.note("sub group: ", sub.name);

  // group facts
  std::vector<INT> es(ncell + 1, 0), es_sub(ncell + 1, 0);
  for (auto &p : pop.parts) {
    es[p.cell + 1]++;
    if (sub.in(p))
      es_sub[p.cell + 1]++;
  }
  for (int c = 0; c < ncell; c++) {
    es[c + 1] += es[c];
    es_sub[c + 1] += es_sub[c];
  }
  bool seen[2] = {false, false};

  const int nloops = (int)g.integer(1, 5);
  for (int op = 0; op < nloops; op++) {
    const int kind = (int)g.draw(4); // group, sub group, REAL dat, INT dat
    const bool is_sub = kind == 1;
    const INT salt = 1 + op;
    particle_loop(
        A,
        [=](auto CNT, auto VAL) {
          CNT.at(0) = 0;
          for (int k = 0; k < 8; k++)
            VAL.at(k) = -7;
        },
        Access::write(Sym<INT>("CNT")), Access::write(Sym<INT>("VAL")))
        ->execute();
    // the clearing loop itself reached every particle
    {
      auto c = read_dat<INT>(pop, "CNT");
      for (std::size_t i = 0; i < c.size(); i++)
        if (!g.ck(c[i][0] == 0, "plain loop over the group missed particle ",
                  pop.parts[i].id, " in cell ", pop.parts[i].cell, " layer ",
                  pop.parts[i].layer))
          break;
    }
    ParticleLoopSharedPtr loop;
    auto a_cnt = Access::write(Sym<INT>("CNT"));
    auto a_idx = Access::read(ParticleLoopIndex{});
    auto a_np = Access::read(CellInfoNPart{});
    auto a_val = Access::write(Sym<INT>("VAL"));
    Visit v{salt};
    auto k = [=](auto CNT, auto I, auto NP, auto VAL) { v(CNT, I, NP, VAL); };
    if (kind == 0)
      loop = particle_loop("c04", A, k, a_cnt, a_idx, a_np, a_val);
    else if (kind == 1)
      loop = particle_loop("c04", sub.s, k, a_cnt, a_idx, a_np, a_val);
    else {
      auto d_cnt = Access::write(A->get_dat(Sym<INT>("CNT")));
      auto d_val = Access::write(A->get_dat(Sym<INT>("VAL")));
      if (kind == 2)
        loop = particle_loop("c04", A->get_dat(Sym<REAL>("W")), k, d_cnt,
                             a_idx, a_np, d_val);
      else
        loop = particle_loop("c04", A->get_dat(Sym<INT>("VAL")), k, d_cnt,
                             a_idx, a_np, d_val);
    }
    // the calls: each entry is one execution range
    std::vector<std::pair<int, int>> ranges;
    const int mode = (int)g.draw(6);
    std::ostringstream w;
    w << "loop " << op << " over "
      << (kind == 0 ? "group" : kind == 1 ? "sub group" : "dat") << ", ";
    auto draw_range = [&]() {
      const int a = (int)(g.draw(1000) % (ncell + 1));
      const int b = a + (int)(g.draw(1000) % (ncell - a + 1));
      return std::pair<int, int>(a, b);
    };
    if (mode == 0) {
      w << "all cells";
      loop->execute();
      ranges.push_back({0, ncell});
    } else if (mode == 1) {
      const int c = (int)(g.draw(1000) % ncell);
      w << "cell " << c;
      loop->execute(c);
      ranges.push_back({c, c + 1});
    } else if (mode == 2) {
      auto r = draw_range();
      w << "cells [" << r.first << "," << r.second << ")";
      loop->execute(r.first, r.second);
      ranges.push_back(r);
    } else if (mode == 3) {
      const int step = 1 + (int)g.draw(3);
      w << "submit per cell(s) in steps of " << step << ", one wait";
      for (int c = 0; c < ncell; c += step) {
        const int e = std::min(c + step, ncell);
        if (step == 1)
          loop->submit(c);
        else
          loop->submit(c, e);
        ranges.push_back({c, e});
      }
      loop->wait();
    } else if (mode == 4) {
      const int n = 1 + (int)g.draw(3);
      w << n << " repeated executions";
      for (int r = 0; r < n; r++) {
        if (g.boolean()) {
          auto q = draw_range();
          w << " [" << q.first << "," << q.second << ")";
          loop->execute(q.first, q.second);
          ranges.push_back(q);
        } else {
          loop->execute();
          ranges.push_back({0, ncell});
        }
      }
    } else {
      w << "submit and wait";
      loop->submit();
      loop->wait();
      ranges.push_back({0, ncell});
    }
    g.note(w.str());
    pop.refresh();
    auto cnt = read_dat<INT>(pop, "CNT");
    auto val = read_dat<INT>(pop, "VAL");
    const auto &lb = is_sub ? es_sub : es;
    std::set<std::pair<INT, INT>> layers;
    for (std::size_t i = 0; i < cnt.size() && !g.failed; i++) {
      const auto &p = pop.parts[i];
      const bool in = !is_sub || sub.in(p);
      INT want = 0;
      std::vector<INT> starts;
      for (auto &r : ranges)
        if (in && p.cell >= r.first && p.cell < r.second) {
          want++;
          starts.push_back(r.first);
        }
      auto at = [&]() {
        std::ostringstream s;
        s << w.str() << ": particle " << p.id << " in cell " << p.cell
          << " layer " << p.layer << ": ";
        return s.str();
      };
      if (!g.ck(cnt[i][0] == want, at(), "visited ", cnt[i][0],
                " times, expected ", want))
        break;
      const auto &x = val[i];
      if (!want) {
        g.ck(x[0] == -7 && x[7] == -7, at(), "written but not in the range");
        continue;
      }
      seen[is_sub] = true;
      g.ck(x[7] == salt, at(), "kernel value not written");
      g.ck(x[0] == p.cell && x[1] == p.layer, at(), "index says cell ", x[0],
           " layer ", x[1]);
      g.ck(x[2] >= 0 && x[2] < lb[p.cell + 1] - lb[p.cell], at(),
           "loop layer ", x[2], " is not below the count ",
           lb[p.cell + 1] - lb[p.cell]);
      g.ck(layers.insert({p.cell, x[2]}).second, at(), "loop layer ", x[2],
           " is used twice in the cell");
      if (!is_sub)
        g.ck(x[2] == p.layer, at(), "loop layer ", x[2]);
      g.ck(x[3] == es[p.cell] + p.layer, at(), "local linear index ", x[3],
           ", expected ", es[p.cell] + p.layer);
      g.ck(x[5] == lb[p.cell] + x[2], at(), "sub linear index ", x[5],
           ", expected ", lb[p.cell] + x[2]);
      g.ck(x[4] == lb[p.cell] + x[2] - lb[starts.back()], at(),
           "loop linear index ", x[4], ", expected ",
           lb[p.cell] + x[2] - lb[starts.back()]);
      g.ck(x[6] == lb[p.cell + 1] - lb[p.cell], at(), "cell count ", x[6],
           ", expected ", lb[p.cell + 1] - lb[p.cell]);
    }
    g.sync();
  }
  if (seen[0] || seen[1])
    g.mark();
}

// Per-particle local memory.
void local_memory(Gen &g) {
  Pop pop;
  CartMesh::Opts mo;
  mo.max_stencil = 0;
  mo.max_subdiv = 0;
  pop.gen(g, mo,
          ParticleSpec{ParticleProp(Sym<INT>("SUM"), 2),
                       ParticleProp(Sym<REAL>("W"), 2)},
          200);
  const int n0 = (int)g.integer(1, 40), n1 = (int)g.integer(1, 9);
  const bool inter = g.boolean();
  const auto sub = gen_sub(g, pop);
  const bool use_sub = g.boolean();
  auto b0 = std::make_shared<LocalMemoryBlock<INT>>(n0);
  auto i0 = std::make_shared<LocalMemoryInterlaced<INT>>(n0);
  auto b1 = std::make_shared<LocalMemoryBlock<REAL>>(n1);
  auto k = [=](auto ID, auto SUM, auto A0, auto A1) {
    const INT id = ID.at(0);
    for (int i = 0; i < n0; i++)
      A0.at(i) = id * 31 + i;
    for (int i = 0; i < n1; i++)
      A1.at(i) = (REAL)(id + 7 * i);
    INT s0 = 0, s1 = 0;
    for (int i = 0; i < n0; i++)
      s0 += A0.at(i) * (i + 1);
    for (int i = 0; i < n1; i++)
      s1 += (INT)A1.at(i) * (i + 1);
    SUM.at(0) = s0;
    SUM.at(1) = s1;
  };
  auto run = [&](auto set) {
    auto aid = Access::read(Sym<INT>("ID"));
    auto as = Access::write(Sym<INT>("SUM"));
    if (inter)
      particle_loop("c04lm", set, k, aid, as, Access::write(i0),
                    Access::write(b1))
          ->execute();
    else
      particle_loop("c04lm", set, k, aid, as, Access::write(b0),
                    Access::write(b1))
          ->execute();
  };
  if (use_sub)
    run(sub.s);
  else
    run(pop.A);
  g.note("local memory ", inter ? "interlaced " : "block ", n0, " and ", n1,
         use_sub ? " sub group " + sub.name : " group");
  auto s = read_dat<INT>(pop, "SUM");
  for (std::size_t i = 0; i < s.size(); i++) {
    const auto &p = pop.parts[i];
    INT e0 = Pop::init_i(p.id, "SUM", 0), e1 = Pop::init_i(p.id, "SUM", 1);
    if (!use_sub || sub.in(p)) {
      e0 = e1 = 0;
      for (int j = 0; j < n0; j++)
        e0 += (p.id * 31 + j) * (j + 1);
      for (int j = 0; j < n1; j++)
        e1 += (p.id + 7 * j) * (j + 1);
      g.mark();
    }
    if (!g.ck(s[i][0] == e0 && s[i][1] == e1, "local memory of particle ", p.id,
              ": sums ", s[i][0], " ", s[i][1], ", expected ", e0, " ", e1))
      break;
  }
  g.sync();
}

// The iteration sets alone, over bare occupancy vectors.
void bare(Gen &g) {
  set_param("LOOP_NBIN", g.pick<std::size_t>({4, 1, 2, 3, 16, 64}));
  const int ncell = (int)g.size(1, 120);
  const int maxn = (int)g.pick<int>({20, 70, 600});
  auto occ = gen_occ(g, ncell, maxn);
  int maxo = 1;
  INT total = 0;
  for (auto o : occ) {
    maxo = std::max(maxo, o);
    total += o;
  }
  auto &t = target();
  std::size_t nc = ncell;
  BufferDevice<int> d_occ(t, occ);
  const std::size_t nslot = (std::size_t)ncell * maxo;
  std::vector<int> zero(nslot + 1, 0);
  BufferDevice<int> d_cnt(t, zero);
  int *cnt = d_cnt.ptr;
  const int width = maxo;
  const std::size_t local = g.pick<std::size_t>({256, 1, 2, 3, 5, 8, 32, 100, 512});
  const std::size_t nbin = g.pick<std::size_t>({16, 1, 2, 3, 5, 200});
  const int mode = (int)g.draw(4);
  const std::size_t stride = g.pick<std::size_t>({1, 1, 2, 4, 16, 3});
  const bool inter = g.boolean();
  const std::size_t nbytes = g.pick<std::size_t>({0, 0, 8, 64, 1024, 20000 / stride});
  const int a = (int)(g.draw(1000) % (ncell + 1));
  const int b = a + (int)(g.draw(1000) % (ncell - a + 1));
  int lo = 0, hi = ncell;
  if (mode == 3) { // the older iteration set
    ParticleLoopIterationSet is((int)nbin, ncell, occ.data());
    const bool one = g.boolean() && a < ncell;
    const std::size_t p2 = std::size_t(1) << g.draw(9);
    auto r = one ? is.get(a, p2) : is.get(std::nullopt, p2);
    if (one && occ[a] == 0) { // not a valid request for this class
      g.sync();
      return;
    }
    if (one) {
      lo = a;
      hi = a + 1;
    }
    INT sum = 0;
    for (int c = lo; c < hi; c++)
      sum += occ[c];
    g.ck((INT)is.iteration_set_size == sum, "iteration_set_size ",
         is.iteration_set_size, ", expected ", sum);
    int const *docc = d_occ.ptr;
    for (int i = 0; i < std::get<0>(r); i++) {
      const std::size_t off = std::get<2>(r)[i];
      t->queue
          .parallel_for<>(std::get<1>(r)[i],
                          [=](sycl::nd_item<2> idx) {
                            const int cell = (int)(idx.get_global_id(0) + off);
                            const int layer = (int)idx.get_global_id(1);
                            if (layer < docc[cell]) {
                              sycl::atomic_ref<int, sycl::memory_order::relaxed,
                                               sycl::memory_scope::device>
                                  r(cnt[cell * width + layer]);
                              r.fetch_add(1);
                            }
                          })
          .wait_and_throw();
    }
  } else {
    ParticleLoopBlockIterationSet is(t, nc, occ.data(), d_occ.ptr);
    if (mode == 0)
      is.get_all_cells(nbin, local, nbytes, stride);
    else if (mode == 1) {
      if (a >= ncell)
        throw pbt::Discard{};
      lo = a;
      hi = a + 1;
      is.get_single_cell(a, local, nbytes, stride);
    } else {
      lo = a;
      hi = b;
      is.get_range_cell(a, b, local, nbytes, stride);
    }
    int *bad = d_cnt.ptr + nslot;
    for (auto &blk : is.iteration_set) {
      const auto bd = blk.block_device;
      const bool check = blk.layer_bounds_check_required;
      int const *docc = d_occ.ptr;
      t->queue
          .parallel_for<>(
              blk.loop_iteration_set,
              [=](sycl::nd_item<2> idx) {
                auto visit = [&](std::size_t c, std::size_t l) {
                  if ((int)c >= ncell || (int)l >= docc[c]) {
                    sycl::atomic_ref<int, sycl::memory_order::relaxed,
                                     sycl::memory_scope::device>
                        r(*bad);
                    r.fetch_add(1);
                    return;
                  }
                  sycl::atomic_ref<int, sycl::memory_order::relaxed,
                                   sycl::memory_scope::device>
                      r(cnt[c * width + l]);
                  r.fetch_add(1);
                };
                std::size_t c, l;
                if (stride == 1 && !inter) {
                  bd.get_cell_layer(idx, &c, &l);
                  if (!check || bd.work_item_required(c, l))
                    visit(c, l);
                } else if (inter) {
                  for (std::size_t s = 0; s < stride; s++) {
                    bd.get_interlaced_cell_layer(idx, s, &c, &l);
                    if (!check || bd.work_item_required(c, l))
                      visit(c, l);
                  }
                } else {
                  std::size_t blkx;
                  bd.stride_get_cell_block(idx, &c, &blkx);
                  if (bd.stride_work_item_required(c, blkx)) {
                    const std::size_t bound =
                        bd.stride_local_index_bound(c, blkx);
                    for (std::size_t s = 0; s < bound; s++)
                      visit(c, blkx * stride + s);
                  }
                }
              })
          .wait_and_throw();
    }
  }
  auto got = d_cnt.get();
  g.note("bare ", mode == 3 ? "old " : "", "ncell ", ncell, " occ ",
         np::str(occ), " cells [", lo, ",", hi, ") local ", local, " nbin ",
         nbin, " stride ", stride, inter ? " interlaced" : "", " bytes ",
         nbytes);
  g.ck(got[nslot] == 0, got[nslot], " visits beyond the occupancy");
  for (int c = 0; c < ncell && !g.failed; c++)
    for (int l = 0; l < occ[c]; l++) {
      const int want = c >= lo && c < hi;
      if (!g.ck(got[c * width + l] == want, "cell ", c, " layer ", l,
                " visited ", got[c * width + l], " times, expected ", want))
        break;
    }
  if (total > 0)
    g.mark();
  g.sync();
}

void prop(Gen &g) {
  const int which = (int)g.draw(8);
  if (which < 4) {
    g.label("loops");
    loops(g);
  } else if (which < 5) {
    g.label("local memory");
    local_memory(g);
  } else {
    g.label("iteration set");
    bare(g);
  }
}
} // namespace
PBT_MAIN("C04", prop)
