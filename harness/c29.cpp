// C29: invalid requests are refused, valid ones are not. Every case sends
// generated requests at and around the border of validity; the host decides
// validity from the documented preconditions. A refusal is an assertion (seen
// through MPI_Abort, which is replaced here) or an exception.
#include "pop.hpp"
#include <neso_particles/containers/lookup_table.hpp>
#include <neso_particles/external_interfaces/common/common.hpp>
using namespace np;

namespace {
struct Refused {};
enum Mode { normal, armed, ignore_all };
Mode mode = normal;
int aborts = 0;
} // namespace

extern "C" int MPI_Abort(MPI_Comm c, int e) {
  if (mode == normal)
    return PMPI_Abort(c, e);
  aborts++;
  try { // nothing may still run on data that unwinding releases
    np::target()->queue.wait();
  } catch (...) {
  }
  if (mode == armed && std::uncaught_exceptions() == 0)
    throw Refused{};
  return MPI_SUCCESS;
}

namespace {

struct Quiet { // the messages of the assertions
  std::streambuf *e, *o;
  Quiet() : e(std::cerr.rdbuf()), o(std::cout.rdbuf()) {
    if (std::getenv("PBT_LOUD"))
      return;
    std::cerr.rdbuf(nullptr);
    std::cout.rdbuf(nullptr);
  }
  ~Quiet() {
    std::cerr.rdbuf(e);
    std::cout.rdbuf(o);
    std::cerr.clear();
    std::cout.clear();
  }
};

template <typename F> bool refused(F f) {
  Quiet q;
  aborts = 0;
  mode = armed;
  bool r = false;
  try {
    f();
  } catch (Refused &) {
    r = true;
  } catch (std::exception &e) {
    std::cerr << e.what() << std::endl;
    r = true;
  }
  mode = ignore_all;
  return r || aborts > 0;
}

struct Ctx {
  Gen &g;
  Pop p;
  int nv{1}, ni{1};
  bool stop{false};
  explicit Ctx(Gen &g) : g(g) {}
  template <typename... M> void expect(bool valid, std::function<void()> f, const M &...m) {
    const bool r = refused(f);
    std::ostringstream o;
    (o << ... << m);
    g.note(o.str(), valid ? " (valid)" : " (invalid)", r ? " refused" : "");
    g.label(valid ? "valid" : "invalid");
    g.ck(r == !valid, o.str(), valid ? " is valid but was refused"
                                     : " is invalid but was not refused");
    if (!valid)
      g.mark();
    stop = stop || r;
    if (!r)
      mode = normal;
  }
  void make(int maxn = 12) {
    nv = (int)g.integer(1, 3);
    ni = (int)g.integer(1, 3);
    CartMesh::Opts o;
    o.max_dim2 = 3;
    o.max_dim3 = 2;
    o.max_subdiv = 1;
    p.gen(g, o,
          ParticleSpec{ParticleProp(Sym<REAL>("V"), nv),
                       ParticleProp(Sym<REAL>("W"), 2),
                       ParticleProp(Sym<INT>("M"), ni)},
          maxn, true);
  }
  ~Ctx() {
    mode = stop ? ignore_all : mode;
    Quiet q;
    try {
      auto mesh = p.cm.mesh;
      p.A.reset();
      p.domain.reset();
      if (mesh)
        mesh->free();
    } catch (...) {
    }
  }
};

int around(Gen &g, int lo, int hi) { // near the ends of [lo, hi]
  switch (g.draw(4)) {
  case 0:
    return lo - 1 - (int)g.draw(2);
  case 1:
    return hi + 1 + (int)g.draw(2);
  case 2:
    return g.boolean() ? lo : hi;
  default:
    return (int)g.integer(std::min(lo, hi), std::max(lo, hi));
  }
}
int near(Gen &g, int v) { return v + (int)g.pick<int>({0, 0, 0, 1, -1}); }

// ------------------------------------------------------------ particle groups
void properties(Ctx &c) {
  Gen &g = c.g;
  c.make();
  auto A = c.p.A;
  const int nd = c.p.cm.ndim;
  std::map<std::string, int> R{{"P", nd}, {"V", c.nv}, {"W", 2}},
      I{{"CELL_ID", 1}, {"ID", 1}, {"M", c.ni}, {"NESO_MPI_RANK", 2}};
  const int n = (int)g.size(1, 5);
  for (int i = 0; i < n && !c.stop && !g.failed; i++) {
    const bool real = g.boolean();
    const std::string nm =
        real ? g.pick<std::string>({"P", "V", "W", "CELL_ID", "NO", "X"})
             : g.pick<std::string>({"CELL_ID", "ID", "M", "NESO_MPI_RANK", "V", "NO", "X"});
    const bool have = real ? R.count(nm) : I.count(nm);
    switch (g.draw(3)) {
    case 0:
      c.expect(have,
               [&]() {
                 if (real)
                   (void)A->get_dat(Sym<REAL>(nm));
                 else
                   (void)A->get_dat(Sym<INT>(nm));
               },
               "get_dat ", nm, real ? " REAL" : " INT");
      break;
    case 1: {
      const bool ok = have && nm != (real ? "P" : "CELL_ID") && nm != "NESO_MPI_RANK";
      c.expect(ok,
               [&]() {
                 if (real)
                   A->remove_particle_dat(Sym<REAL>(nm));
                 else
                   A->remove_particle_dat(Sym<INT>(nm));
               },
               "remove_particle_dat ", nm, real ? " REAL" : " INT");
      if (ok)
        (real ? R : I).erase(nm);
      break;
    }
    default: {
      const int k = (int)g.integer(1, 3);
      const bool ok = !have || (real ? R : I)[nm] == k;
      c.expect(ok,
               [&]() {
                 if (real)
                   A->add_particle_dat(
                       ParticleDat(target(), ParticleProp(Sym<REAL>(nm), k), c.p.ncell));
                 else
                   A->add_particle_dat(
                       ParticleDat(target(), ParticleProp(Sym<INT>(nm), k), c.p.ncell));
               },
               "add_particle_dat ", nm, real ? " REAL " : " INT ", k);
      if (ok)
        (real ? R : I)[nm] = k;
    }
    }
    if (!c.stop)
      for (auto &x : R)
        g.ck(A->contains_dat(Sym<REAL>(x.first)), "lost property ", x.first);
  }
}

void add_sets(Ctx &c) {
  Gen &g = c.g;
  c.make(4);
  const int nd = c.p.cm.ndim, ncell = c.p.ncell;
  const int n = (int)g.integer(0, 4);
  const int kv = near(g, c.nv), km = near(g, c.ni);
  const bool withv = g.boolean(), withm = g.boolean(), withc = g.draw(5) != 0,
             other = g.boolean();
  ParticleSpec s{ParticleProp(Sym<REAL>("P"), nd, true)};
  if (withv && kv > 0)
    s.push(ParticleProp(Sym<REAL>("V"), kv));
  if (withm && km > 0)
    s.push(ParticleProp(Sym<INT>("M"), km));
  if (withc)
    s.push(ParticleProp(Sym<INT>("CELL_ID"), 1, true));
  if (other)
    s.push(ParticleProp(Sym<REAL>("OTHER"), 2));
  auto ps = std::make_shared<ParticleSet>(n, s);
  bool cells = true;
  if (withc)
    for (int i = 0; i < n; i++) {
      const int x = g.boolean() ? (int)(g.draw(1000) % ncell)
                                : std::min(around(g, 0, ncell - 1), ncell + 1);
      (*ps)[Sym<INT>("CELL_ID")][i][0] = x;
      cells = cells && x >= 0 && x < ncell;
    }
  const bool ok = n == 0 || (withc && cells && (!withv || kv <= 0 || kv == c.nv) &&
                             (!withm || km <= 0 || km == c.ni));
  const INT before = c.p.A->get_npart_local();
  c.expect(ok, [&]() { c.p.A->add_particles_local(ps); }, "add_particles_local: ", n,
           " particles, V ", withv ? kv : 0, " of ", c.nv, ", M ", withm ? km : 0,
           " of ", c.ni, withc ? cells ? "" : ", bad cells" : ", no cells");
  if (ok)
    g.ck(c.p.A->get_npart_local() == before + n, "particles were not added");
}

void add_products(Ctx &c) {
  Gen &g = c.g;
  c.make(4);
  const int n = (int)g.integer(0, 3);
  const int kv = std::max(1, near(g, c.nv)), km = std::max(1, near(g, c.ni));
  const bool withv = g.boolean(), withm = g.boolean(), other = g.draw(5) == 0;
  ParticleSpec s{ParticleProp(Sym<INT>("CELL_ID"), 1, true)};
  if (withv)
    s.push(ParticleProp(Sym<REAL>("V"), kv));
  if (withm)
    s.push(ParticleProp(Sym<INT>("M"), km));
  if (other)
    s.push(ParticleProp(Sym<REAL>("OTHER"), 1));
  const bool ok =
      !other && (!withv || kv == c.nv) && (!withm || km == c.ni);
  auto pm = product_matrix(target(), product_matrix_spec(s));
  pm->reset(n);
  c.expect(ok, [&]() { c.p.A->add_particles_local(pm); }, "add products: ", n,
           " V ", withv ? kv : 0, " of ", c.nv, ", M ", withm ? km : 0, " of ", c.ni,
           other ? ", unknown property" : "");
  // negative counts
  if (c.stop || g.failed)
    return;
  const int m = (int)g.integer(-2, 3);
  auto dp = std::make_shared<DescendantProducts>(target(), product_matrix_spec(s),
                                                 (int)g.integer(1, 3));
  if (g.boolean())
    c.expect(m >= 0, [&]() { dp->reset(m); }, "DescendantProducts::reset(", m, ")");
  else
    c.expect(m >= 0, [&]() { pm->reset(m); }, "ProductMatrix::reset(", m, ")");
}

// A second group with kv components of V, on the same mesh or another one.
struct Second {
  CartMesh cm;
  DomainSharedPtr d;
  ParticleGroupSharedPtr B;
  int ncell;
  Second(Ctx &c, bool same, int kv, int n) {
    if (same) {
      d = c.p.domain;
      ncell = c.p.ncell;
    } else {
      CartMesh::Opts o;
      o.min_ndim = o.max_ndim = c.p.cm.ndim;
      o.max_dim2 = 3;
      o.max_dim3 = 2;
      o.max_subdiv = 1;
      cm.gen(c.g, o);
      d = std::make_shared<Domain>(cm.mesh);
      ncell = cm.ncell;
    }
    ParticleSpec s = Pop::base_spec(c.p.cm.ndim);
    if (kv > 0)
      s.push(ParticleProp(Sym<REAL>("V"), kv));
    B = std::make_shared<ParticleGroup>(d, s, target());
    ParticleSet ps(n, s);
    for (int i = 0; i < n; i++) {
      ps[Sym<INT>("ID")][i][0] = i;
      ps[Sym<INT>("CELL_ID")][i][0] = i % ncell;
    }
    B->add_particles_local(ps);
  }
  ~Second() {
    Quiet q;
    B.reset();
    d.reset();
    if (cm.mesh)
      cm.mesh->free();
  }
};

void add_groups(Ctx &c) {
  Gen &g = c.g;
  c.make(4);
  auto A = c.p.A;
  const bool same = g.draw(3) != 0;
  const int kv = near(g, c.nv), n = (int)g.integer(1, 6);
  Second S(c, same, kv, n);
  const bool agree = kv <= 0 || kv == c.nv;
  switch (g.draw(4)) {
  case 0:
    c.expect(false, [&]() { A->add_particles_local(A); }, "adding a group to itself");
    break;
  case 1:
    c.expect(S.ncell == c.p.ncell && agree, [&]() { A->add_particles_local(S.B); },
             "adding a group with ", S.ncell, " cells and ", kv,
             " components to one with ", c.p.ncell, " and ", c.nv);
    break;
  case 2: {
    auto s = mask_on(S.B, 1, 1, 1);
    if (!same)
      break;
    c.expect(agree, [&]() { A->add_particles_local(s); }, "adding a sub group with ",
             kv, " components to a group with ", c.nv);
    break;
  }
  default: {
    const bool own = g.boolean();
    auto s = own ? g.boolean() ? mask_on(A, 5, 1, 2) : std::make_shared<ParticleSubGroup>(A)
             : g.boolean() ? mask_on(S.B, 5, 1, 2)
                           : std::make_shared<ParticleSubGroup>(S.B);
    c.expect(own, [&]() { A->remove_particles(s); }, "removing a sub group of ",
             own ? "the group" : "another group");
  }
  }
}

void indices(Ctx &c) {
  Gen &g = c.g;
  c.make();
  auto A = c.p.A;
  const int ncell = c.p.ncell;
  const int n = (int)g.integer(0, 4);
  if (g.boolean()) {
    // get_particles
    std::vector<INT> cells, layers;
    bool ok = true;
    for (int i = 0; i < n; i++) {
      INT x, l;
      if (c.p.parts.size() && g.draw(4)) {
        auto q = c.p.parts[g.draw(100000) % c.p.parts.size()];
        x = q.cell;
        l = q.layer;
      } else {
        x = around(g, 0, ncell - 1);
        x = std::min<INT>(x, ncell);
        const int m = x >= 0 && x < ncell ? A->get_npart_cell(x) : 1;
        l = around(g, 0, m - 1);
      }
      cells.push_back(x);
      layers.push_back(l);
      ok = ok && x >= 0 && x < ncell && l >= 0 && l < A->get_npart_cell(x);
    }
    const int cut = (int)g.draw(6);
    if (cut == 1 && n > 0) {
      layers.pop_back();
      ok = false;
    } else if (cut == 2) {
      layers.push_back(0);
      ok = false;
    }
    c.expect(ok, [&]() { A->get_particles(cells, layers); }, "get_particles of ",
             str(cells), " ", str(layers));
  } else {
    // remove_particles with explicit lists of distinct particles
    std::vector<INT> cells, layers;
    for (auto &q : c.p.parts)
      if ((int)cells.size() < n) {
        cells.push_back(q.cell);
        layers.push_back(q.layer);
      }
    const int m = (int)cells.size();
    const int ask = m + (int)g.pick<int>({0, 0, -1, 1});
    if (g.draw(4) == 0 && m > 0)
      (g.boolean() ? cells : layers).pop_back();
    const bool ok = ask <= 0 || ((int)cells.size() >= ask && (int)layers.size() >= ask);
    if (ask >= 0)
      c.expect(ok, [&]() { A->remove_particles(ask, cells, layers); },
               "remove_particles of ", ask, " with ", cells.size(), " cells and ",
               layers.size(), " layers");
  }
}

void moves(Ctx &c) {
  Gen &g = c.g;
  c.make();
  if (c.p.parts.empty())
    return;
  const int ncell = c.p.ncell;
  const auto q = c.p.parts[g.draw(100000) % c.p.parts.size()];
  const int to = g.draw(5) ? around(g, 0, ncell - 1) : (int)g.pick<int>({1 << 30, -(1 << 30)});
  // the mapper of a plain domain leaves the cells to the user
  auto d = std::make_shared<Domain>(c.p.cm.mesh);
  ParticleGroup B(d, c.p.spec, target());
  B.add_particles_local(c.p.A);
  auto cd = B.get_cell(Sym<INT>("CELL_ID"), (int)q.cell);
  cd->at(q.layer, 0) = to;
  B.get_dat(Sym<INT>("CELL_ID"))->cell_dat.set_cell((int)q.cell, cd);
  c.expect(to >= 0 && to < ncell, [&]() { B.cell_move(); }, "moving a particle from cell ",
           q.cell, " to ", to, " of ", ncell);
}

void cell_data(Ctx &c) {
  Gen &g = c.g;
  c.make();
  const int cell = (int)(g.draw(1000) % c.p.ncell);
  const int n = c.p.A->get_npart_cell(cell);
  const int nr = std::max(0, near(g, n)), nc = std::max(0, near(g, c.nv));
  auto &cd = c.p.A->get_dat(Sym<REAL>("V"))->cell_dat;
  auto x = std::make_shared<CellDataT<REAL>>(target(), nr, nc);
  for (int j = 0; j < nc; j++)
    for (int i = 0; i < nr; i++)
      x->at(i, j) = i + j;
  const bool ok = nr >= n && nc >= c.nv;
  const int how = (int)g.draw(3);
  c.expect(ok,
           [&]() {
             EventStack es;
             if (how == 0)
               cd.set_cell(cell, x);
             else if (how == 1)
               cd.set_cell_async(cell, *x, es);
             else
               cd.get_cell_async(cell, *x, es);
             es.wait();
           },
           how == 0 ? "set_cell" : how == 1 ? "set_cell_async" : "get_cell_async",
           " of ", n, "x", c.nv, " with ", nr, "x", nc);
  if (c.stop || g.failed)
    return;
  const int col = around(g, 0, c.nv - 1);
  CellDataT<REAL> y(target(), 3, c.nv);
  if (col != c.nv) // one past the end is accepted, like an end iterator
    c.expect(col >= 0 && col < c.nv, [&]() { (void)y.get_column_ptr(col); },
             "get_column_ptr(", col, ") of ", c.nv);
}

// ------------------------------------------------------------------ sub groups
void selections(Ctx &c) {
  Gen &g = c.g;
  c.make();
  auto A = c.p.A;
  const int ncell = c.p.ncell;
  ParticleSubGroupSharedPtr S = g.boolean() ? mask_on(A, 3, 1, 2) : nullptr;
  const int n = (int)g.size(1, 3);
  for (int i = 0; i < n && !c.stop && !g.failed; i++)
    switch (g.draw(4)) {
    case 0: {
      const int a = around(g, 0, ncell), b = g.draw(3) ? around(g, 0, ncell) : a + 1;
      c.expect(0 <= a && a <= b && b <= ncell,
               [&]() {
                 auto s = S ? particle_sub_group(S, a, b) : particle_sub_group(A, a, b);
                 (void)s->get_npart_local();
               },
               "cells [", a, ",", b, ") of ", ncell);
      break;
    }
    case 1: {
      const int a = around(g, 0, ncell - 1);
      c.expect(0 <= a && a < ncell,
               [&]() {
                 auto s = S ? particle_sub_group(S, a) : particle_sub_group(A, a);
                 (void)s->get_npart_local();
               },
               "cell ", a, " of ", ncell);
      break;
    }
    case 2: {
      const int k = (int)g.integer(-2, 3);
      const bool t = g.boolean();
      c.expect(k >= 0,
               [&]() {
                 auto s = t ? (S ? particle_sub_group_truncate(S, k)
                                 : particle_sub_group_truncate(A, k))
                            : (S ? particle_sub_group_discard(S, k)
                                 : particle_sub_group_discard(A, k));
                 (void)s->get_npart_local();
               },
               t ? "truncate to " : "discard ", k);
      break;
    }
    default: {
      const auto nm = g.pick<std::string>({"V", "W", "M", "ID", "NO"});
      const bool real = g.boolean();
      const bool ok = real ? nm == "V" || nm == "W" : nm == "M" || nm == "ID";
      c.expect(ok,
               [&]() {
                 ParticleSubGroupSharedPtr s;
                 if (real)
                   s = particle_sub_group(
                       A, [=](auto X) { return X.at(0) > 0; },
                       Access::read(Sym<REAL>(nm)));
                 else
                   s = particle_sub_group(
                       A, [=](auto X) { return X.at(0) > 0; },
                       Access::read(Sym<INT>(nm)));
                 (void)s->get_npart_local();
               },
               "selecting by ", real ? "REAL " : "INT ", nm);
    }
    }
}

template <typename T> void ephemeral(Ctx &c) {
  Gen &g = c.g;
  c.make();
  auto A = c.p.A;
  auto S = mask_on(A, g.seed32(), 1, 2);
  std::map<std::string, int> have;
  const bool real = std::is_same_v<T, REAL>;
  std::map<std::string, int> dats =
      real ? std::map<std::string, int>{{"P", c.p.cm.ndim}, {"V", c.nv}, {"W", 2}}
           : std::map<std::string, int>{{"CELL_ID", 1}, {"ID", 1}, {"M", c.ni}};
  const int n = (int)g.size(2, 9);
  for (int i = 0; i < n && !c.stop && !g.failed; i++) {
    const auto nm = g.pick<std::string>({"E1", "E2", real ? "V" : "M"});
    const auto dn = real ? g.pick<std::string>({"V", "W", "NO", "P"})
                         : g.pick<std::string>({"M", "ID", "NO"});
    const int k = have.count(nm) && g.draw(3) ? have[nm] : (int)g.integer(g.draw(4) ? 1 : -1, 3);
    switch (g.draw(6)) {
    case 0:
    case 1: {
      const bool ok = k > 0 && (!have.count(nm) || have[nm] == k);
      c.expect(ok, [&]() { S->add_ephemeral_dat(Sym<T>(nm), k); },
               "add_ephemeral_dat ", nm, " ", k);
      if (ok)
        have[nm] = k;
      break;
    }
    case 2:
      c.expect(have.count(nm), [&]() { S->remove_ephemeral_dat(Sym<T>(nm)); },
               "remove_ephemeral_dat ", nm);
      have.erase(nm);
      break;
    case 3:
      c.expect(have.count(nm), [&]() { (void)S->get_ephemeral_dat(Sym<T>(nm)); },
               "get_ephemeral_dat ", nm);
      break;
    case 4: {
      // the positions and the cells are left alone
      if (dn == "P")
        break;
      const bool ok = have.count(nm) && dats.count(dn) && have[nm] == dats[dn];
      c.expect(ok,
               [&]() {
                 copy_ephemeral_dat_to_particle_dat(S, Sym<T>(nm), Sym<T>(dn));
               },
               "copy ephemeral ", nm, " to ", dn);
      break;
    }
    default: {
      const bool ok = have.count(nm) && dats.count(dn) && have[nm] == dats[dn];
      c.expect(ok,
               [&]() {
                 copy_particle_dat_to_ephemeral_dat(S, Sym<T>(dn), Sym<T>(nm));
               },
               "copy ", dn, " to ephemeral ", nm);
    }
    }
    // a write to a property the selection depends on would end the
    // ephemeral properties; the selection depends on ID only
    if (!c.stop && dn == "ID" && !real)
      break;
  }
}

// ----------------------------------------------------------------------- loops
void loops(Ctx &c) {
  Gen &g = c.g;
  c.make();
  auto A = c.p.A;
  switch (g.draw(3)) {
  case 0: {
    const auto nm = g.pick<std::string>({"V", "W", "M", "ID", "P", "NO"});
    const bool real = g.boolean();
    const bool ok = real ? nm == "V" || nm == "W" || nm == "P" : nm == "M" || nm == "ID";
    const bool sub = g.boolean();
    auto S = mask_on(A, 9, 1, 2);
    if (!ok && (sub ? S->get_npart_local() : A->get_npart_local()) == 0)
      return; // nothing to loop over: no request for the particle data is made
    c.expect(ok,
             [&]() {
               auto go = [&](auto grp, auto sym) {
                 particle_loop(
                     "probe", grp, [=](auto X) { X.at(0) = X.at(0); },
                     Access::write(sym))
                     ->execute();
               };
               if (sub) {
                 if (real)
                   go(S, Sym<REAL>(nm));
                 else
                   go(S, Sym<INT>(nm));
               } else {
                 if (real)
                   go(A, Sym<REAL>(nm));
                 else
                   go(A, Sym<INT>(nm));
               }
             },
             "loop over ", sub ? "a sub group" : "the group", " writing ",
             real ? "REAL " : "INT ", nm);
    break;
  }
  case 1: {
    auto body = [=](auto V) { V.at(0) += 1.0; };
    ParticleLoopSharedPtr L;
    auto S = mask_on(A, 9, 1, 2);
    if (g.boolean())
      L = particle_loop("protocol", A, body, Access::write(Sym<REAL>("V")));
    else
      L = particle_loop("protocol", S, body, Access::write(Sym<REAL>("V")));
    bool running = false;
    const int n = (int)g.size(1, 8);
    for (int i = 0; i < n && !c.stop && !g.failed; i++) {
      const bool turn = g.draw(4) != 0; // mostly the right call
      const bool submit = turn ? !running : running;
      c.expect(submit == !running,
               [&]() {
                 if (submit)
                   L->submit();
                 else
                   L->wait();
               },
               submit ? "submit" : "wait", running ? " while submitted" : " while idle");
      if (!c.stop)
        running = submit;
    }
    if (running && !c.stop)
      L->wait();
    break;
  }
  default: {
    // assertions in kernels
    ErrorPropagate ep(target());
    auto k_ep = ep.device_ptr();
    const int n = (int)g.size(1, 4);
    for (int i = 0; i < n && !c.stop && !g.failed; i++) {
      const uint64_t salt = g.seed32();
      const INT one = c.p.parts.empty() ? -1
                                        : c.p.parts[g.draw(100000) % c.p.parts.size()].id;
      const int kind = (int)g.draw(4); // none, one, some, all
      auto bad = [=](INT id) {
        return kind == 0   ? false
               : kind == 1 ? id == one
               : kind == 2 ? pbt::hash(salt, (uint64_t)id) % 3 == 0
                           : true;
      };
      int want = 0;
      for (auto &q : c.p.parts)
        want += bad(q.id);
      particle_loop(
          "kernel_assert", A,
          [=](auto ID) { NESO_KERNEL_ASSERT(!bad(ID.at(0)), k_ep); },
          Access::read(Sym<INT>("ID")))
          ->execute();
      g.ck(ep.get_flag() == want, "kernel assertions: flag ", ep.get_flag(), " for ",
           want, " failures");
      g.ck(ep.get_flag() == want, "kernel assertions: reading the flag changed it");
      c.expect(want == 0, [&]() { ep.check_and_throw("kernel assertion"); },
               want, " failed kernel assertions");
      if (want && g.boolean()) {
        mode = normal;
        c.stop = false;
      }
      ep.reset();
      g.ck(ep.get_flag() == 0, "kernel assertions: flag after reset");
    }
  }
  }
}

void pair_loops(Ctx &c) {
  Gen &g = c.g;
  c.make(4);
  const bool same = g.boolean();
  Second S(c, same, c.nv, 3);
  CellwisePairListAbsolute<ParticleGroup, CellwisePairList> list(
      c.p.A, S.B,
      std::make_shared<CellwisePairListSimple>(target(), c.p.ncell));
  std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> v{list};
  c.expect(same,
           [&]() {
             auto L = particle_pair_loop(
                 "probe", v, [=](auto V) { V.at(0) = V.at(0); },
                 Access::A(Access::write(Sym<REAL>("V"))));
             (void)L;
           },
           "pair loop over groups on ", same ? "one domain" : "two domains");
}

// ------------------------------------------------------------------ containers
void arrays(Ctx &c) {
  Gen &g = c.g;
  const int n = (int)g.integer(0, 5), m = std::max(0, near(g, n));
  std::vector<REAL> v(m, 1.0), w(m);
  const int kind = (int)g.draw(5);
  if (kind == 0) {
    LocalArray<REAL> a(target(), n);
    c.expect(n == m, [&]() { a.set(v); }, "LocalArray set ", m, " of ", n);
  } else if (kind == 1) {
    LocalArray<REAL> a(target(), n);
    c.expect(n == m, [&]() { a.get(w); }, "LocalArray get ", m, " of ", n);
  } else if (kind == 2) {
    const int q = (int)g.integer(1, 3);
    NDLocalArray<REAL, 2> a(target(), n, q);
    const int k = std::max(0, near(g, n * q));
    std::vector<REAL> u(k, 2.0);
    if (g.boolean())
      c.expect(k == n * q, [&]() { a.set(u); }, "NDLocalArray set ", k, " of ", n * q);
    else
      c.expect(k == n * q, [&]() { a.get(u); }, "NDLocalArray get ", k, " of ", n * q);
  } else if (kind == 3) {
    GlobalArray<REAL> a(target(), n);
    c.expect(n == m, [&]() { a.get(w); }, "GlobalArray get ", m, " of ", n);
  } else {
    const int size = (int)g.integer(1, 6), key = around(g, 0, size - 1);
    LookupTable<int, REAL> t(target(), size);
    c.expect(key >= 0 && key < size, [&]() { t.add(key, 1.0); }, "LookupTable add ",
             key, " of ", size);
  }
}

void cell_const(Ctx &c) {
  Gen &g = c.g;
  c.make(6);
  auto A = c.p.A;
  const int ncell = c.p.ncell, nr = (int)g.integer(1, 3), nc = (int)g.integer(1, 3);
  const int kc = std::max(1, near(g, ncell));
  const int r2 = std::max(1, near(g, nr)), c2 = std::max(1, near(g, nc));
  auto D = std::make_shared<CellDatConst<REAL>>(target(), kc, nr, nc);
  D->fill(0.0);
  auto mk = [&](int a, int b) {
    auto x = std::make_shared<CellDataT<REAL>>(target(), a, b);
    for (int i = 0; i < a; i++)
      for (int j = 0; j < b; j++)
        x->at(i, j) = 1.0;
    return x;
  };
  ParticleSubGroupSharedPtr S = g.boolean() ? mask_on(A, 4, 1, 2) : nullptr;
  const int row = around(g, 0, nr - 1), col = around(g, 0, nc - 1);
  const auto nm = g.pick<std::string>({"V", "V", "W", "NO"});
  const bool has = nm != "NO";
  const int ncomp = nm == "W" ? 2 : c.nv;
  const bool in = row >= 0 && row < nr && col >= 0 && col < nc;
  switch (g.draw(7)) {
  case 0:
    c.expect(r2 >= nr && c2 >= nc, [&]() { D->set_cell(kc - 1, mk(r2, c2)); },
             "CellDatConst set_cell ", r2, "x", c2, " of ", nr, "x", nc);
    break;
  case 1: {
    std::vector<CellData<REAL>> v;
    const int m = std::max(0, near(g, kc));
    const int odd = g.boolean() ? -1 : (int)(g.draw(1000) % std::max(1, m));
    for (int i = 0; i < m; i++)
      v.push_back(i == odd ? mk(r2, c2) : mk(nr, nc));
    const bool shapes = odd < 0 || odd >= m || (r2 == nr && c2 == nc);
    c.expect(m == kc && shapes, [&]() { D->set_all_cells(v); },
             "CellDatConst set_all_cells ", m, " of ", kc, " one of ", r2, "x", c2,
             " in ", nr, "x", nc);
    break;
  }
  case 2:
    if (row < 0 || col < 0)
      return; // negative indices are not checked
    c.expect(kc == ncell && in,
             [&]() {
               if (S)
                 get_npart_cell(S, D, row, col);
               else
                 get_npart_cell(A, D, row, col);
             },
             "get_npart_cell into (", row, ",", col, ") of ", nr, "x", nc, " and ", kc,
             " of ", ncell, " cells");
    break;
  case 3:
    c.expect(kc == ncell && has && in,
             [&]() {
               if (S)
                 reduce_dat_component_cellwise(S, Sym<REAL>(nm), 0, D, row, col,
                                               Kernel::plus<REAL>());
               else
                 reduce_dat_component_cellwise(A, Sym<REAL>(nm), 0, D, row, col,
                                               Kernel::plus<REAL>());
             },
             "reduce ", nm, " into (", row, ",", col, ") of ", nr, "x", nc, " and ", kc,
             " of ", ncell, " cells");
    break;
  case 4:
    c.expect(kc == ncell && has && ncomp >= nr * nc,
             [&]() {
               if (S)
                 reduce_dat_components_cellwise(S, Sym<REAL>(nm), D,
                                                Kernel::plus<REAL>());
               else
                 reduce_dat_components_cellwise(A, Sym<REAL>(nm), D,
                                                Kernel::plus<REAL>());
             },
             "reduce ", nm, " of ", ncomp, " into ", nr, "x", nc, " and ", kc, " of ",
             ncell, " cells");
    break;
  case 5: {
    auto E = std::make_shared<CellDatConst<REAL>>(target(), ncell, r2, c2);
    E->fill(1.0);
    const bool shape = (r2 == nr && c2 == nc) || (r2 == 1 && c2 == 1);
    c.expect(kc == ncell && shape,
             [&]() {
               cell_dat_const_loop_element_wise(
                   D, [=](REAL a) { return a + 1.0; }, E);
             },
             "element wise ", r2, "x", c2, " into ", nr, "x", nc, ", ", ncell, " into ",
             kc, " cells");
    break;
  }
  default: {
    std::vector<REAL> v(kc, 1.0);
    c.expect(kc == ncell,
             [&]() {
               if (S)
                 cellwise_broadcast(S, Sym<REAL>("V"), 0, v);
               else
                 cellwise_broadcast(A, Sym<REAL>("V"), 0, v);
             },
             "cellwise_broadcast of ", kc, " values to ", ncell, " cells");
  }
  }
}

template <typename T> void particle_sets(Ctx &c) {
  Gen &g = c.g;
  const int n = (int)g.integer(0, 4), k = (int)g.integer(1, 3);
  ParticleSpec s{ParticleProp(Sym<T>("X"), k), ParticleProp(Sym<T>("Y"), 1)};
  auto ps = std::make_shared<ParticleSet>(n, s);
  const auto nm = g.pick<std::string>({"X", "X", "Y", "NO"});
  const int kk = nm == "X" ? k : nm == "Y" ? 1 : 0;
  switch (g.draw(4)) {
  case 0: {
    const int m = std::max(0, near(g, n)), comp = around(g, 0, k - 1);
    std::vector<T> v(m, (T)1);
    c.expect(kk && m == n && comp >= 0 && comp < kk,
             [&]() { ps->set(Sym<T>(nm), comp, v); }, "ParticleSet set ", nm, "[", comp,
             "] with ", m, " of ", n, " values");
    break;
  }
  case 1: {
    const int row = (int)(g.draw(1000) % std::max(1, n)), comp = 0;
    if (n == 0)
      break;
    c.expect(kk > 0, [&]() { (void)ps->at(Sym<T>(nm), row, comp); }, "ParticleSet at ",
             nm);
    break;
  }
  case 2: {
    const int m = std::max(0, near(g, n)), k2 = std::max(1, near(g, k));
    const bool with = g.boolean();
    ParticleSpec s2{ParticleProp(Sym<T>("Y"), 1), ParticleProp(Sym<T>("Z"), 2)};
    if (with)
      s2.push(ParticleProp(Sym<T>("X"), k2));
    auto q = std::make_shared<ParticleSet>(m, s2);
    const bool ok = m == n && (!with || k2 == k);
    if (g.boolean() || n == 0)
      c.expect(ok, [&]() { ps->set(q); }, "ParticleSet set from ", m, " with ",
               with ? k2 : 0, " of ", n, " with ", k);
    else {
      ParticleSetDevice d(target(), n, s);
      c.expect(ok, [&]() { d.set(q); }, "ParticleSetDevice set from ", m, " with ",
               with ? k2 : 0, " of ", n, " with ", k);
    }
    break;
  }
  default: {
    const int m = (int)g.integer(-2, 3);
    ParticleSetDevice d(target(), n, s);
    c.expect(m >= 0, [&]() { d.reset(m); }, "ParticleSetDevice::reset(", m, ")");
  }
  }
}

struct OtherParameter : Parameter {};

void small(Ctx &c) {
  Gen &g = c.g;
  switch (g.draw(6)) {
  case 0: {
    const int k = (int)g.integer(-2, 3);
    auto f = []() -> REAL { return 0.5; };
    const bool atomic = g.boolean();
    c.expect(k >= 0,
             [&]() {
               if (atomic)
                 (void)host_atomic_block_kernel_rng<REAL>(f, k);
               else
                 (void)host_per_particle_block_rng<REAL>(f, k);
             },
             "random numbers for ", k, " components");
    break;
  }
  case 1: {
    Parameters P;
    P.set("a", std::make_shared<SizeTParameter>(3));
    P.set("b", std::make_shared<OtherParameter>());
    const auto nm = g.pick<std::string>({"a", "b", "c"});
    c.expect(nm == "a", [&]() { (void)P.get<SizeTParameter>(nm); }, "parameter ", nm);
    break;
  }
  case 2: {
    const int n = (int)g.integer(4, 8);
    std::vector<REAL> v(n, 0.0);
    c.expect(n == 6, [&]() { ExternalCommon::BoundingBox b(v); }, "bounding box of ", n,
             " values");
    break;
  }
  case 3: {
    const int nc = (int)g.integer(1, 4), nd = (int)g.integer(1, 4);
    ExternalCommon::DOFMapperDG m(target(), nc, nd);
    const int a = around(g, 0, nc - 1), b = around(g, 0, nd - 1);
    const bool set = g.boolean();
    c.expect(a >= 0 && a < nc && b >= 0 && b < nd,
             [&]() {
               if (set)
                 m.set(a, b, 7);
               else
                 (void)m.get(a, b);
             },
             "degree of freedom (", a, ",", b, ") of ", nc, "x", nd);
    break;
  }
  case 4: {
    const int nd = (int)g.integer(-1, 5);
    const bool t = g.boolean();
    c.expect(nd > 0 && nd < 4,
             [&]() {
               if (t)
                 BoundaryTruncation b(nd);
               else
                 BoundaryReflection b(nd);
             },
             t ? "truncation" : "reflection", " in ", nd, " dimensions");
    break;
  }
  default: {
    // local memory: num work items, at most the default, that fit
    const std::size_t lm = target()->device_limits.local_mem_size;
    const std::size_t off = g.pick<std::size_t>({0, 1, lm / 2, lm - 64, lm, lm + 1});
    const std::size_t left = lm >= off ? lm - off : 0;
    const std::size_t nb =
        g.pick<std::size_t>({0, 1, 8, 64, left / 7 + 1, left / 2, left / 2 + 1,
                             left - (left > 0), left, left + 1, lm + 1});
    const std::size_t def = g.pick<std::size_t>({1, 2, 16, 32, 256, 1024});
    std::size_t got = 0;
    const bool ok = nb == 0 || (off <= lm && nb <= left);
    c.expect(ok, [&]() { got = target()->get_num_local_work_items(off, nb, def); },
             "work items with ", nb, " bytes each after ", off, " of ", lm);
    if (ok) {
      std::size_t want = 1;
      if (nb == 0)
        want = def;
      else {
        while (want * 2 <= left / nb)
          want *= 2;
        want = std::min(want, def);
      }
      g.ck(got == want, "work items with ", nb, " bytes each after ", off, " of ", lm,
           ": ", got, " expected ", want);
    }
  }
  }
}

// ---------------------------------------------------------------------- meshes
void mesh_requests(Ctx &c) {
  Gen &g = c.g;
  const int nd = (int)g.integer(1, 3);
  std::vector<int> dims;
  bool ok = true;
  for (int d = 0; d < nd; d++) {
    dims.push_back((int)g.integer(g.draw(6) ? 1 : -1, 3));
    ok = ok && dims.back() > 0;
  }
  const double ext = g.pick<double>({1.0, 1.0, 0.5, 0.0, -1.0});
  const int sub = (int)g.integer(g.draw(5) ? 0 : -2, 1);
  ok = ok && ext > 0 && sub >= 0;
  if (g.boolean()) {
    std::vector<double> origin(nd, 0.0);
    std::shared_ptr<MeshHierarchy> mh;
    c.expect(ok,
             [&]() {
               mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, nd, dims, origin,
                                                    ext, sub);
             },
             "MeshHierarchy ", str(dims), " extent ", ext, " subdivision ", sub);
    if (!mh || c.stop || g.failed)
      return;
    const bool early = g.draw(4) == 0;
    if (early)
      c.expect(false, [&]() { (void)mh->get_owner(0); }, "owner before the claims");
    if (!c.stop) {
      mh->claim_initialise();
      const int w = g.pick<int>({1, 2, 0, -1, std::numeric_limits<int>::max(),
                                 std::numeric_limits<int>::max() - 1,
                                 std::numeric_limits<int>::min(), 100});
      c.expect(w > 0 && w < std::numeric_limits<int>::max(),
               [&]() { mh->claim_cell(0, w); }, "claim of weight ", w);
      if (!c.stop) {
        mh->claim_finalise();
        c.expect(true, [&]() { (void)mh->get_owner(0); }, "owner after the claims");
      }
    }
    mode = ignore_all;
    c.stop = true;
    mh->free();
  } else {
    std::shared_ptr<CartesianHMesh> m;
    c.expect(ok && nd > 1,
             [&]() {
               m = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, nd, dims, ext, sub, 0);
             },
             "CartesianHMesh ", str(dims), " extent ", ext, " subdivision ", sub);
    if (!m || c.stop || g.failed)
      return;
    m->free();
  }
}

void mesh_queries(Ctx &c) {
  Gen &g = c.g;
  CartMesh::Opts o;
  o.min_ndim = 2;
  o.max_dim2 = 4;
  o.max_dim3 = 3;
  o.max_subdiv = 1;
  CartMesh m;
  m.gen(g, o);
  const int nd = m.ndim;
  int faces = 0;
  if (nd == 2)
    faces = 2 * (m.n[0] + m.n[1]);
  else
    faces = 2 * (m.n[0] * m.n[1] + m.n[1] * m.n[2] + m.n[0] * m.n[2]);
  const int k = (int)g.size(1, 5);
  for (int i = 0; i < k && !c.stop && !g.failed; i++)
    switch (g.draw(7)) {
    case 0: {
      const int x = around(g, 0, m.ncell - 1);
      c.expect(x >= 0 && x < m.ncell,
               [&]() { (void)m.mesh->get_global_cell_tuple_index(x); }, "cell ", x, " of ",
               m.ncell);
      break;
    }
    case 1: {
      INT x[3] = {0, 0, 0};
      bool ok = true;
      for (int d = 0; d < nd; d++) {
        x[d] = g.draw(3) ? (INT)(g.draw(1000) % m.n[d]) : around(g, 0, m.n[d] - 1);
        ok = ok && x[d] >= 0 && x[d] < m.n[d];
      }
      c.expect(ok, [&]() { (void)m.mesh->get_mesh_tuple_owning_rank(x); }, "cell (", x[0],
               ",", x[1], ",", x[2], ") of ", m.str());
      break;
    }
    case 2:
    case 3:
    case 4: {
      const int f = around(g, 0, faces - 1);
      const int how = (int)g.draw(3);
      c.expect(f >= 0 && f < faces,
               [&]() {
                 INT t[3];
                 if (how == 0)
                   m.mesh->get_face_id_as_tuple(f, t);
                 else if (how == 1)
                   (void)m.mesh->get_face_id_owning_rank(f);
                 else
                   (void)m.mesh->get_vtk_face_cell_points((INT)f);
               },
               how == 0 ? "tuple" : how == 1 ? "owner" : "points", " of face ", f, " of ",
               faces);
      break;
    }
    case 5: {
      const int f = around(g, 0, 2 * nd - 1);
      c.expect(f >= 0 && f < 2 * nd,
               [&]() { (void)m.mesh->get_all_face_cells_on_face(f); }, "side ", f, " of ",
               2 * nd);
      break;
    }
    default: {
      ParticleDatSharedPtr<REAL> pd =
          ParticleDat(target(), ParticleProp(Sym<REAL>("P"), nd, true), m.ncell);
      const int n = (int)g.integer(0, 4);
      std::vector<int> masks(n, 1);
      c.expect(n >= nd, [&]() { CartesianPeriodic p(target(), m.mesh, pd, masks); }, n,
               " masks in ", nd, " dimensions");
    }
    }
  mode = ignore_all;
  Quiet q;
  m.mesh->free();
}

void overlay(Ctx &c) {
  Gen &g = c.g;
  const int nd = (int)g.integer(1, 3);
  auto len = [&]() { return std::max(0, nd + (int)g.pick<int>({0, 0, 0, 0, 0, 1, -1})); };
  std::vector<REAL> o(len(), -1.0), e(len(), 2.0);
  std::vector<int> n(len(), 3);
  bool ok = (int)o.size() == nd && (int)e.size() == nd && (int)n.size() == nd;
  for (auto &x : e)
    if (g.draw(8) == 0) {
      x = g.pick<REAL>({0.0, -1.0});
      ok = false;
    }
  for (auto &x : n)
    if (g.draw(8) == 0) {
      x = g.pick<int>({0, -1});
      ok = false;
    }
  std::shared_ptr<ExternalCommon::OverlayCartesianMesh> m;
  c.expect(ok,
           [&]() {
             m = std::make_shared<ExternalCommon::OverlayCartesianMesh>(target(), nd, o, e,
                                                                        n);
           },
           "overlay of ", nd, " dimensions, origin ", str(o), " extents ", str(e),
           " cells ", str(n));
  if (c.stop || g.failed || !m)
    return;
  if (g.boolean()) {
    const int d = around(g, 0, nd - 1);
    const REAL x = g.pick<REAL>({-1.0, 0.0, 0.999, 1.0, 1.01, -1.01, 2.0, -5.0});
    c.expect(d >= 0 && d < nd && x >= -1.0 && x <= 1.0,
             [&]() { (void)m->get_cell_in_dimension(d, x); }, "overlay cell of ", x,
             " in dimension ", d, " of ", nd);
  } else {
    std::vector<int> t;
    bool in = true;
    for (int d = 0; d < nd; d++) {
      t.push_back(g.draw(2) ? (int)g.draw(3) : around(g, 0, 2));
      in = in && t.back() >= 0 && t.back() < 3;
    }
    c.expect(in, [&]() { (void)m->get_bounding_box(t); }, "overlay box of cell ", str(t));
  }
}

void surfaces(Ctx &c) {
  Gen &g = c.g;
  CartMesh::Opts o;
  o.min_ndim = 2;
  o.max_dim2 = 3;
  o.max_dim3 = 2;
  o.max_subdiv = 1;
  CartMesh m;
  m.gen(g, o);
  const int nd = m.ndim;
  switch (g.draw(3)) {
  case 0: {
    const int d = (int)g.integer(nd - 2, nd), p = g.draw(4) ? 0 : 1;
    const auto sp = g.pick<std::string>({"DG", "DG", "DG", "CG"});
    std::vector<INT> cells = m.mesh->get_owned_face_cells();
    std::shared_ptr<CartesianHMeshFunction> f;
    c.expect(d + 1 == nd && p == 0 && sp == "DG",
             [&]() {
               f = std::make_shared<CartesianHMeshFunction>(m.mesh, target(), d, cells, sp, p,
                                                            0);
             },
             "surface function of ", d, " dimensions on a mesh of ", nd, ", ", sp, p);
    if (f && !c.stop && !g.failed) {
      const int n = (int)cells.size(), k = std::max(0, near(g, n));
      std::vector<REAL> v(k, 1.0);
      c.expect(k == n, [&]() { f->set_dofs(v); }, "set_dofs ", k, " of ", n);
    }
    break;
  }
  case 1: {
    std::map<int, std::vector<int>> groups{{1, {0}}, {7, {1, 2}}};
    const int asked = g.pick<int>({1, 7, 0, 2, -1});
    CartesianTrajectoryIntersection cti(target(), m.mesh, groups);
    c.expect(groups.count(asked), [&]() { (void)cti.create_function(asked, "DG", 0); },
             "function on boundary group ", asked);
    if (c.stop)
      mode = ignore_all;
    cti.free();
    break;
  }
  default: {
    std::map<int, std::vector<int>> groups{{1, {0, 1}}};
    CartesianTrajectoryIntersection cti(target(), m.mesh, groups);
    auto d = std::make_shared<Domain>(m.mesh);
    auto sp = Pop::base_spec(nd);
    const int k = (int)g.integer(0, nd + 1);
    const bool prep = g.draw(3) != 0;
    if (k > 0)
      sp.push(ParticleProp(CartesianTrajectoryIntersection::previous_position_sym, k));
    auto A = std::make_shared<ParticleGroup>(d, sp, target());
    if (prep)
      c.expect(k == 0 || k >= nd, [&]() { cti.prepare_particle_group(A); },
               "preparing a group with ", k, " components of previous position");
    if (!c.stop && !g.failed && (k == nd || k == 0)) {
      c.expect(k == nd || prep, [&]() { cti.pre_integration(A); },
               "pre_integration of ", prep || k == nd ? "a prepared" : "an unprepared",
               " group");
    }
    mode = c.stop ? ignore_all : mode;
    A.reset();
    cti.free();
  }
  }
  mode = c.stop ? ignore_all : mode;
  Quiet q;
  m.mesh->free();
}

void prop(Gen &g) {
  mode = normal;
  {
    Ctx c(g);
    switch (g.draw(20)) {
    case 0:
    case 1:
      properties(c);
      break;
    case 2:
    case 3:
      add_sets(c);
      break;
    case 4:
      add_products(c);
      break;
    case 5:
      add_groups(c);
      break;
    case 6:
    case 7:
      indices(c);
      break;
    case 8:
      moves(c);
      break;
    case 9:
      cell_data(c);
      break;
    case 10:
      selections(c);
      break;
    case 11:
      if (g.boolean())
        ephemeral<REAL>(c);
      else
        ephemeral<INT>(c);
      break;
    case 12:
      loops(c);
      break;
    case 13:
      if (g.boolean())
        pair_loops(c);
      else
        overlay(c);
      break;
    case 14:
      arrays(c);
      break;
    case 15:
    case 16:
      cell_const(c);
      break;
    case 17:
      if (g.boolean())
        particle_sets<REAL>(c);
      else
        particle_sets<INT>(c);
      break;
    case 18:
      if (g.boolean())
        small(c);
      else
        mesh_requests(c);
      break;
    default:
      if (g.boolean())
        mesh_queries(c);
      else
        surfaces(c);
    }
  }
  mode = normal;
}
} // namespace

PBT_MAIN("C29", prop)
