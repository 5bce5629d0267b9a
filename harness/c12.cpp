// C12: cell-wise algorithms, scans, transposes and reductions equal their
// serial definitions.
#include "pop.hpp"
using namespace np;

namespace {

// Array contents: small, signed, or large values without overflow.
template <typename T>
std::vector<T> values(Gen &g, std::size_t n, const char *what) {
  const int kind = (int)g.draw(4);
  const uint64_t salt = g.seed32();
  std::vector<T> v(n);
  for (std::size_t i = 0; i < n; i++) {
    const uint64_t h = pbt::hash(salt, i);
    if (kind == 0)
      v[i] = (T)(INT)(h % 5);
    else if (kind == 1)
      v[i] = (T)((INT)(h % 2001) - 1000);
    else if (kind == 2)
      v[i] = (T)(i % 7 == 0 ? (INT)(h % 100) : 0);
    else
      v[i] = (T)1;
  }
  g.note(what, " n=", n, " kind ", kind);
  return v;
}
std::size_t length(Gen &g, std::size_t mx) {
  const int k = (int)g.draw(5);
  if (k == 0)
    return (std::size_t)g.draw(5);
  if (k == 1) { // around a power of two
    std::size_t p = (std::size_t)1 << g.draw(13);
    INT n = (INT)p + (INT)g.draw(5) - 2;
    return (std::size_t)std::max<INT>(0, std::min<INT>(n, (INT)mx));
  }
  return (std::size_t)g.size(0, (INT)mx);
}
void params(Gen &g, bool pow2) {
  if (pow2)
    set_param("LOOP_LOCAL_SIZE", g.pick<std::size_t>({32, 1, 2, 4, 8, 16, 64, 256}));
  else
    set_param("LOOP_LOCAL_SIZE",
              g.pick<std::size_t>({32, 1, 2, 3, 4, 7, 8, 16, 24, 64, 100, 256}));
  const std::size_t cu = g.pick<std::size_t>({8, 1, 2, 3, 5, 16, 64});
  set_param("MAX_COMPUTE_UNITS", cu);
}

// Device array with guard elements after the end.
template <typename T> struct Guarded {
  BufferDevice<T> b;
  std::size_t n;
  static constexpr std::size_t PAD = 8;
  static std::vector<T> padded(const std::vector<T> &v) {
    std::vector<T> w(v);
    w.resize(v.size() + PAD, (T)77);
    return w;
  }
  Guarded(const std::vector<T> &v) : b(target(), padded(v)), n(v.size()) {}
  std::vector<T> get(Gen &g, const char *what) {
    auto w = b.get();
    for (std::size_t i = n; i < w.size(); i++)
      g.ck(w[i] == (T)77, what, " changed the element ", i,
           " after its output of ", n, " elements");
    w.resize(n);
    return w;
  }
};
template <typename T>
void same(Gen &g, const std::vector<T> &got, const std::vector<T> &want,
          const std::string &what) {
  if (!g.ck(got.size() == want.size(), what, " size ", got.size(), " expected ",
            want.size()))
    return;
  for (std::size_t i = 0; i < got.size(); i++)
    if (!g.ck(got[i] == want[i], what, " element ", i, " of ", got.size(),
              " is ", got[i], " expected ", want[i]))
      return;
}
template <typename T>
std::vector<T> exscan(const std::vector<T> &v, std::size_t a, std::size_t n) {
  std::vector<T> o(n);
  T s = 0;
  for (std::size_t i = 0; i < n; i++) {
    o[i] = s;
    s += v[a + i];
  }
  return o;
}

template <typename T> void scan1(Gen &g) {
  const std::size_t n = length(g, 9000);
  auto v = values<T>(g, n, "scan");
  auto want = exscan(v, 0, n);
  Guarded<T> src(v), d0(std::vector<T>(n, (T)-5)), d1(std::vector<T>(n, (T)-5)),
      d2(std::vector<T>(n, (T)-5));
  joint_exclusive_scan(target(), n, src.b.ptr, d0.b.ptr).wait_and_throw();
  same(g, d0.get(g, "joint_exclusive_scan"), want, "joint_exclusive_scan");
  const std::size_t na = get_joint_exclusive_scan_aux_array_size(target(), n);
  Guarded<T> aux(std::vector<T>(na, (T)3));
  joint_exclusive_scan(target(), n, aux.b.ptr, src.b.ptr, d1.b.ptr)
      .wait_and_throw();
  same(g, d1.get(g, "joint_exclusive_scan with auxiliary array"), want,
       "joint_exclusive_scan with auxiliary array");
  aux.get(g, "joint_exclusive_scan auxiliary array");
  joint_exclusive_scan_blocking(target(), n, src.b.ptr, d2.b.ptr);
  same(g, d2.get(g, "joint_exclusive_scan_blocking"), want,
       "joint_exclusive_scan_blocking");
  same(g, src.get(g, "scan input"), v, "scan input after the scans");
  g.mark(n > 1);
}

template <typename T> void scann(Gen &g) {
  const std::size_t N = (std::size_t)g.size(0, 40);
  const int kind = (int)g.draw(3);
  const std::size_t mx = g.pick<std::size_t>({8, 40, 300});
  const uint64_t salt = g.seed32();
  std::vector<T> sizes(N), offs(N);
  T at = 0;
  for (std::size_t i = 0; i < N; i++) {
    const uint64_t h = pbt::hash(salt, i);
    sizes[i] = (T)(kind == 0   ? h % (mx + 1)
                   : kind == 1 ? (h & 1) * ((h >> 8) % (mx + 1))
                               : mx);
  }
  const bool rev = g.boolean(), gap = g.boolean();
  for (std::size_t j = 0; j < N; j++) {
    const std::size_t i = rev ? N - 1 - j : j;
    at += gap ? (T)(pbt::hash(salt, i, 1) % 3) : 0;
    offs[i] = at;
    at += sizes[i];
  }
  const std::size_t total = (std::size_t)at;
  auto v = values<T>(g, total, "segmented scan");
  g.note("segments ", N, " sizes ", np::str(sizes));
  std::vector<T> blank(total, (T)-9), want(blank), inc(blank), sum(N, 0);
  for (std::size_t i = 0; i < N; i++) {
    auto e = exscan(v, (std::size_t)offs[i], (std::size_t)sizes[i]);
    for (std::size_t k = 0; k < e.size(); k++) {
      want[offs[i] + k] = e[k];
      inc[offs[i] + k] = e[k] + v[offs[i] + k];
      sum[i] += v[offs[i] + k];
    }
  }
  Guarded<T> ds(sizes), dof(offs), src(v), d0(blank), d1(blank), d2(blank),
      dsum(std::vector<T>(N, (T)-1));
  joint_exclusive_scan_n(target(), N, (const T *)ds.b.ptr,
                         (const T *)dof.b.ptr, src.b.ptr, d0.b.ptr)
      .wait_and_throw();
  same(g, d0.get(g, "joint_exclusive_scan_n"), want, "joint_exclusive_scan_n");
  joint_exclusive_scan_n_sum(target(), N, (const T *)ds.b.ptr,
                             (const T *)dof.b.ptr, src.b.ptr, d1.b.ptr,
                             dsum.b.ptr)
      .wait_and_throw();
  same(g, d1.get(g, "joint_exclusive_scan_n_sum"), want,
       "joint_exclusive_scan_n_sum");
  same(g, dsum.get(g, "joint_exclusive_scan_n_sum sums"), sum,
       "joint_exclusive_scan_n_sum totals");
  joint_inclusive_scan_n(target(), N, (const T *)ds.b.ptr,
                         (const T *)dof.b.ptr, src.b.ptr, d2.b.ptr)
      .wait_and_throw();
  same(g, d2.get(g, "joint_inclusive_scan_n"), inc, "joint_inclusive_scan_n");
  // fixed size segments
  const std::size_t M = length(g, 200), K = (std::size_t)g.size(0, 30);
  auto w = values<T>(g, M * K, "fixed segments");
  std::vector<T> wantf;
  for (std::size_t i = 0; i < K; i++) {
    auto e = exscan(w, i * M, M);
    wantf.insert(wantf.end(), e.begin(), e.end());
  }
  Guarded<T> ws(w), wd(std::vector<T>(M * K, (T)-9));
  joint_exclusive_scan_n(target(), K, M, ws.b.ptr, wd.b.ptr).wait_and_throw();
  same(g, wd.get(g, "joint_exclusive_scan_n fixed"), wantf,
       "joint_exclusive_scan_n with a fixed segment size");
  g.mark(total > 1);
}

template <typename T> void transpose(Gen &g) {
  std::size_t r = length(g, 90), c = length(g, 90);
  if (g.chance(1, 4))
    r = (std::size_t)g.size(0, 3000), c = (std::size_t)g.size(0, 4);
  if (g.boolean())
    std::swap(r, c);
  if (r * c > 12000)
    r = 12000 / c;
  auto v = values<T>(g, r * c, "transpose");
  g.note("rows ", r, " cols ", c);
  std::vector<T> want(r * c);
  for (std::size_t i = 0; i < r; i++)
    for (std::size_t j = 0; j < c; j++)
      want[j * r + i] = v[i * c + j];
  Guarded<T> src(v), dst(std::vector<T>(r * c, (T)-3));
  matrix_transpose(target(), r, c, (const T *)src.b.ptr, dst.b.ptr)
      .wait_and_throw();
  same(g, dst.get(g, "matrix_transpose"), want, "matrix_transpose");
  g.mark(r > 1 && c > 1);
}

template <typename T> void reduce(Gen &g) {
  const std::size_t n = 1 + length(g, 5000);
  auto v = values<T>(g, n, "reduce");
  Guarded<T> src(v), dst(std::vector<T>(3, (T)-3));
  reduce_values(target(), n, src.b.ptr, sycl::plus<T>{}, dst.b.ptr)
      .wait_and_throw();
  reduce_values(target(), n, src.b.ptr, sycl::minimum<T>{}, dst.b.ptr + 1)
      .wait_and_throw();
  reduce_values(target(), n, src.b.ptr, sycl::maximum<T>{}, dst.b.ptr + 2)
      .wait_and_throw();
  same(g, dst.get(g, "reduce_values"),
       std::vector<T>{std::accumulate(v.begin(), v.end(), (T)0),
                      *std::min_element(v.begin(), v.end()),
                      *std::max_element(v.begin(), v.end())},
       "reduce_values (plus, minimum, maximum)");
  g.mark(n > 1);
}

struct World {
  Gen &g;
  Pop pop;
  World(Gen &g) : g(g) {
    ParticleSpec extra{ParticleProp(Sym<REAL>("V"), 1 + (int)g.draw(6)),
                       ParticleProp(Sym<REAL>("Q"), 1),
                       ParticleProp(Sym<INT>("W"), 1 + (int)g.draw(6)),
                       ParticleProp(Sym<INT>("U"), 2)};
    CartMesh::Opts mo;
    pop.gen(g, mo, extra, g.pick<int>({12, 40, 200}));
    set_param("LOOP_LOCAL_SIZE",
              g.pick<std::size_t>({32, 1, 2, 4, 8, 16, 256}));
  }

  template <typename T, typename GR>
  void reduce_dat(GR grp, const Sub &sub, const std::string &sym) {
    auto dat = pop.A->get_dat(Sym<T>(sym));
    const int nc = dat->ncomp;
    // values which sum without rounding
    const uint64_t salt = g.seed32();
    const INT span = g.pick<INT>({1000, 3, 1});
    const int knc = nc;
    particle_loop(
        pop.A,
        [=](auto ID, auto X) {
          for (int k = 0; k < knc; k++)
            X.at(k) = (T)((INT)(pbt::hash(salt, (uint64_t)ID.at(0), k) %
                                (2 * (uint64_t)span + 1)) -
                          span);
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<T>(sym)))
        ->execute();
    auto x = read_dat<T>(pop, sym);
    const int op = (int)g.draw(3);
    auto apply = [&](T a, T b) {
      return op == 0 ? a + b : op == 1 ? std::min(a, b) : std::max(a, b);
    };
    const bool all = g.boolean();
    int nrow = 1 + (int)g.draw(3), ncol = 1 + (int)g.draw(3);
    if (all) { // a factorisation of nc
      nrow = nc;
      for (int d = 1 + (int)g.draw(nc); d >= 1; d--)
        if (nc % d == 0) {
          nrow = d;
          break;
        }
      ncol = nc / nrow;
    }
    const int row = (int)g.draw(nrow), col = (int)g.draw(ncol),
              comp = (int)g.draw(nc);
    auto C = std::make_shared<CellDatConst<T>>(target(), pop.ncell, nrow, ncol);
    const uint64_t isalt = g.seed32();
    std::vector<T> want((std::size_t)pop.ncell * nrow * ncol);
    auto at = [&](int c, int r, int k) -> T & {
      return want[((std::size_t)c * nrow + r) * ncol + k];
    };
    {
      std::vector<CellData<T>> init;
      for (int c = 0; c < pop.ncell; c++) {
        auto cd = std::make_shared<CellDataT<T>>(target(), nrow, ncol);
        for (int r = 0; r < nrow; r++)
          for (int k = 0; k < ncol; k++)
            cd->at(r, k) = at(c, r, k) =
                (T)((INT)(pbt::hash(isalt, c, r, k) % 101) - 50);
        init.push_back(cd);
      }
      C->set_all_cells(init);
    }
    for (std::size_t i = 0; i < pop.parts.size(); i++) {
      auto &p = pop.parts[i];
      if (!sub.in(p))
        continue;
      if (all)
        for (int k = 0; k < nc; k++) {
          T &w = at((int)p.cell, k / ncol, k % ncol);
          w = apply(w, x[i][k]);
        }
      else {
        T &w = at((int)p.cell, row, col);
        w = apply(w, x[i][comp]);
      }
    }
    std::ostringstream o;
    o << "reduction " << op << " of " << sym << " over " << sub.name << " shape "
      << nrow << "x" << ncol << (all ? " all components" : " one component");
    g.note(o.str());
    if (all) {
      if (op == 0)
        reduce_dat_components_cellwise(grp, Sym<T>(sym), C, Kernel::plus<T>{});
      else if (op == 1)
        reduce_dat_components_cellwise(grp, Sym<T>(sym), C,
                                       Kernel::minimum<T>{});
      else
        reduce_dat_components_cellwise(grp, Sym<T>(sym), C,
                                       Kernel::maximum<T>{});
    } else {
      if (op == 0)
        reduce_dat_component_cellwise(grp, Sym<T>(sym), comp, C, row, col,
                                      Kernel::plus<T>{});
      else if (op == 1)
        reduce_dat_component_cellwise(grp, Sym<T>(sym), comp, C, row, col,
                                      Kernel::minimum<T>{});
      else
        reduce_dat_component_cellwise(grp, Sym<T>(sym), comp, C, row, col,
                                      Kernel::maximum<T>{});
    }
    auto cells = C->get_all_cells();
    for (int c = 0; c < pop.ncell; c++)
      for (int r = 0; r < nrow; r++)
        for (int k = 0; k < ncol; k++)
          if (!g.ck(cells[c]->at(r, k) == at(c, r, k), o.str(), " cell ", c, " (",
                    r, ",", k, ") is ", cells[c]->at(r, k), " expected ",
                    at(c, r, k)))
            return;
    g.mark(!pop.parts.empty());
  }

  template <typename T, typename GR> void npart(GR grp, const Sub &sub) {
    const int nrow = 1 + (int)g.draw(3), ncol = 1 + (int)g.draw(3);
    const int row = (int)g.draw(nrow), col = (int)g.draw(ncol);
    auto C = std::make_shared<CellDatConst<T>>(target(), pop.ncell, nrow, ncol);
    C->fill((T)-7);
    std::vector<T> want(pop.ncell, 0);
    for (auto &p : pop.parts)
      if (sub.in(p))
        want[p.cell]++;
    get_npart_cell(grp, C, row, col);
    auto cells = C->get_all_cells();
    for (int c = 0; c < pop.ncell; c++)
      for (int r = 0; r < nrow; r++)
        for (int k = 0; k < ncol; k++) {
          const T w = (r == row && k == col) ? want[c] : (T)-7;
          if (!g.ck(cells[c]->at(r, k) == w, "get_npart_cell ", sub.name,
                    " cell ", c, " (", r, ",", k, ") is ", cells[c]->at(r, k),
                    " expected ", w))
            return;
        }
    g.mark(!pop.parts.empty());
  }

  template <typename T, typename V, typename GR>
  void broadcast(GR grp, const Sub &sub, const std::string &sym) {
    auto before = read_dat<T>(pop, sym);
    const int comp = (int)g.draw(pop.A->get_dat(Sym<T>(sym))->ncomp);
    const uint64_t salt = g.seed32();
    std::vector<V> v(pop.ncell);
    for (int c = 0; c < pop.ncell; c++)
      v[c] = (V)((INT)(pbt::hash(salt, c) % 20001) - 10000);
    cellwise_broadcast(grp, Sym<T>(sym), comp, v);
    auto after = read_dat<T>(pop, sym);
    for (std::size_t i = 0; i < after.size(); i++) {
      auto w = before[i];
      if (sub.in(pop.parts[i]))
        w[comp] = (T)v[pop.parts[i].cell];
      if (!g.ck(w == after[i], "cellwise_broadcast to ", sym, "[", comp,
                "] over ", sub.name, ": particle in cell ", pop.parts[i].cell,
                " has ", np::str(after[i]), " expected ", np::str(w)))
        return;
    }
    g.mark(!pop.parts.empty());
  }

  // element wise operations on per-cell matrices
  void element_wise() {
    const int nrow = 1 + (int)g.draw(5), ncol = 1 + (int)g.draw(5);
    const uint64_t salt = g.seed32();
    auto init = [&](auto &C, std::vector<std::vector<INT>> &h, int id) {
      using T = std::decay_t<decltype(C->get_value(0, 0, 0))>;
      std::vector<CellData<T>> in;
      h.resize(pop.ncell);
      for (int c = 0; c < pop.ncell; c++) {
        auto cd = std::make_shared<CellDataT<T>>(target(), C->nrow, C->ncol);
        h[c].resize((std::size_t)C->nrow * C->ncol);
        for (int r = 0; r < C->nrow; r++)
          for (int k = 0; k < C->ncol; k++) {
            h[c][(std::size_t)r * C->ncol + k] =
                (INT)(pbt::hash(salt, c, id, r * 100 + k) % 2001) - 1000;
            cd->at(r, k) = (T)h[c][(std::size_t)r * C->ncol + k];
          }
        in.push_back(cd);
      }
      C->set_all_cells(in);
    };
    auto shape = [&](bool bc) {
      return bc ? std::make_pair(1, 1) : std::make_pair(nrow, ncol);
    };
    const bool ba = g.chance(1, 3), bb = g.chance(1, 3), bc = g.chance(1, 3);
    auto [ar, ac] = shape(ba);
    auto [br, bcl] = shape(bb);
    auto [cr, cc] = shape(bc);
    auto A = std::make_shared<CellDatConst<REAL>>(target(), pop.ncell, ar, ac);
    auto B = std::make_shared<CellDatConst<INT>>(target(), pop.ncell, br, bcl);
    auto C = std::make_shared<CellDatConst<REAL>>(target(), pop.ncell, cr, cc);
    auto D = std::make_shared<CellDatConst<REAL>>(target(), pop.ncell, nrow, ncol);
    std::vector<std::vector<INT>> ha, hb, hc, hd;
    init(A, ha, 1);
    init(B, hb, 2);
    init(C, hc, 3);
    init(D, hd, 4);
    const int narg = 1 + (int)g.draw(3);
    const bool alias = g.boolean();
    if (narg == 1)
      cell_dat_const_loop_element_wise(
          D, [=](auto b) { return (REAL)(3 * b); }, B);
    else if (narg == 2)
      if (alias)
        cell_dat_const_loop_element_wise(
            D, [=](auto d, auto b) { return d * 5 + (REAL)b; }, D, B);
      else
        cell_dat_const_loop_element_wise(
            D, [=](auto a, auto b) { return a * 5 + (REAL)b; }, A, B);
    else
      cell_dat_const_loop_element_wise(
          D, [=](auto a, auto b, auto c) { return a * (REAL)b - c; }, A, B, C);
    g.note("element wise ", nrow, "x", ncol, " args ", narg, " broadcast ", ba,
           bb, bc, " alias ", alias);
    auto got = D->get_all_cells();
    for (int c = 0; c < pop.ncell; c++)
      for (int r = 0; r < nrow; r++)
        for (int k = 0; k < ncol; k++) {
          const std::size_t i = (std::size_t)r * ncol + k;
          const INT a = ha[c][ba ? 0 : i], b = hb[c][bb ? 0 : i],
                    e = hc[c][bc ? 0 : i], d = hd[c][i];
          const INT w = narg == 1   ? 3 * b
                        : narg == 2 ? (alias ? d : a) * 5 + b
                                    : a * b - e;
          if (!g.ck(got[c]->at(r, k) == (REAL)w,
                    "cell_dat_const_loop_element_wise ", nrow, "x", ncol,
                    " with ", narg, " arguments, broadcast ", ba, bb, bc,
                    ": cell ", c, " (", r, ",", k, ") is ", got[c]->at(r, k),
                    " expected ", w))
            return;
        }
    g.mark();
  }

  void unseen(const Sub &sub) {
    UnseenValueExtractor ex(target());
    std::set<INT> seen;
    const int rounds = 1 + (int)g.draw(4);
    const bool eph = g.boolean();
    if (eph)
      sub.s->add_ephemeral_dat(Sym<INT>("E"), 2);
    for (int r = 0; r < rounds; r++) {
      const uint64_t salt = g.seed32();
      const INT span = g.pick<INT>({50, 1, 5, 1000, 1000000000000ll});
      const INT base = g.pick<INT>({0, -20, 125, -128, -130, 1000000007});
      const int comp = (int)g.draw(2);
      const bool whole = !eph && g.boolean();
      auto val = [=](INT id) -> INT {
        return base + (INT)(pbt::hash(salt, (uint64_t)id) % (uint64_t)span) *
                          ((pbt::hash(salt, (uint64_t)id, 1) & 1) ? 1 : -1);
      };
      if (eph)
        particle_loop(
            sub.s,
            [=](auto ID, auto E) {
              E.at_ephemeral(comp) = val(ID.at(0));
              E.at_ephemeral(1 - comp) = 31;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("E")))
            ->execute();
      else
        particle_loop(
            pop.A,
            [=](auto ID, auto U) {
              U.at(comp) = val(ID.at(0));
              U.at(1 - comp) = 31;
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("U")))
            ->execute();
      std::set<INT> want;
      for (auto &p : pop.parts)
        if (whole || sub.in(p))
          if (!seen.count(val(p.id)))
            want.insert(val(p.id));
      auto got = whole ? ex.extract(pop.A, Sym<INT>("U"), comp, false)
                       : ex.extract(sub.s, Sym<INT>(eph ? "E" : "U"), comp, eph);
      g.note("unseen round ", r, " span ", span, " base ", base, " ",
             whole ? "group" : sub.name, eph ? " ephemeral" : "", " new ",
             want.size());
      if (!g.ck(got == want, "UnseenValueExtractor round ", r, " returned ",
                np::str(std::vector<INT>(got.begin(), got.end())), " expected ",
                np::str(std::vector<INT>(want.begin(), want.end()))))
        return;
      seen.insert(want.begin(), want.end());
      g.mark(!want.empty());
    }
  }

  template <typename T> void movement(const Sub &sub, const std::string &sym) {
    const int nc = pop.A->get_dat(Sym<T>(sym))->ncomp;
    const std::string en = g.boolean() ? sym : "EPH";
    sub.s->add_ephemeral_dat(Sym<T>(en), nc);
    auto v0 = read_dat<T>(pop, sym);
    copy_particle_dat_to_ephemeral_dat(sub.s, Sym<T>(sym), Sym<T>(en));
    const INT shift = 1 + (INT)g.draw(100);
    const int knc = nc;
    // change both sides: the particle data are doubled, the copy is shifted
    particle_loop(
        pop.A,
        [=](auto X) {
          for (int k = 0; k < knc; k++)
            X.at(k) = X.at(k) * 2;
        },
        Access::write(Sym<T>(sym)))
        ->execute();
    auto edat = sub.s->get_ephemeral_dat(Sym<T>(en));
    particle_loop(
        sub.s,
        [=](auto E) {
          for (int k = 0; k < knc; k++)
            E.at_ephemeral(k) += (T)shift;
        },
        Access::write(edat))
        ->execute();
    auto v1 = read_dat<T>(pop, sym);
    for (std::size_t i = 0; i < v1.size(); i++)
      for (int k = 0; k < nc; k++)
        if (!g.ck(v1[i][k] == v0[i][k] * 2, "copy to an ephemeral dat changed ",
                  sym))
          return;
    copy_ephemeral_dat_to_particle_dat(sub.s, Sym<T>(en), Sym<T>(sym));
    auto v2 = read_dat<T>(pop, sym);
    for (std::size_t i = 0; i < v2.size(); i++) {
      const bool in = sub.in(pop.parts[i]);
      for (int k = 0; k < nc; k++) {
        const T w = in ? v0[i][k] + (T)shift : v1[i][k];
        if (!g.ck(v2[i][k] == w, "copying ", sym, " through ephemeral dat ", en,
                  " of ", sub.name, ": particle ", pop.parts[i].id, " component ",
                  k, " is ", v2[i][k], " expected ", w))
          return;
      }
    }
    g.mark(!pop.parts.empty());
  }
};

void prop(Gen &g) {
  const std::size_t cu =
      target()->parameters->get<SizeTParameter>("MAX_COMPUTE_UNITS")->value;
  const int kind = (int)g.draw(3);
  if (kind == 0) {
    const int n = 1 + (int)g.draw(3);
    for (int i = 0; i < n && !g.failed; i++) {
      const int what = (int)g.draw(4);
      const bool i32 = g.boolean();
      params(g, what == 3);
      g.label("array " + std::to_string(what));
      if (what == 0)
        i32 ? scan1<int>(g) : scan1<INT>(g);
      else if (what == 1)
        i32 ? scann<int>(g) : scann<INT>(g);
      else if (what == 2)
        i32 ? transpose<int>(g) : transpose<REAL>(g);
      else
        i32 ? reduce<int>(g) : reduce<REAL>(g);
    }
  } else {
    World w(g);
    const int n = 1 + (int)g.draw(4);
    for (int i = 0; i < n && !g.failed; i++) {
      const int what = (int)g.draw(6);
      const bool real = g.boolean(), grp = g.boolean();
      g.label("cellwise " + std::to_string(what));
      Sub sub = gen_sub(g, w.pop);
      Sub all;
      all.in = [](const PartInfo &) { return true; };
      all.name = "group";
      if (what == 0) {
        const std::string rn = g.boolean() ? "V" : "Q";
        if (real)
          grp ? w.reduce_dat<REAL>(w.pop.A, all, rn)
              : w.reduce_dat<REAL>(sub.s, sub, rn);
        else
          grp ? w.reduce_dat<INT>(w.pop.A, all, "W")
              : w.reduce_dat<INT>(sub.s, sub, "W");
      } else if (what == 1) {
        if (real)
          grp ? w.npart<int>(w.pop.A, all) : w.npart<int>(sub.s, sub);
        else
          grp ? w.npart<INT>(w.pop.A, all) : w.npart<INT>(sub.s, sub);
      } else if (what == 2) {
        if (real)
          grp ? w.broadcast<REAL, int>(w.pop.A, all, "V")
              : w.broadcast<REAL, REAL>(sub.s, sub, "V");
        else
          grp ? w.broadcast<INT, INT>(w.pop.A, all, "W")
              : w.broadcast<INT, int>(sub.s, sub, "W");
      } else if (what == 3)
        w.element_wise();
      else if (what == 4)
        w.unseen(sub);
      else {
        if (real)
          w.movement<REAL>(sub, "V");
        else
          w.movement<INT>(sub, "W");
      }
    }
  }
  set_param("MAX_COMPUTE_UNITS", cu);
}

} // namespace

PBT_MAIN("C12", prop)
