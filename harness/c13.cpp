// C13: mesh hierarchy indexing, ownership claims, and data held on hierarchy
// cells.
#include "nodes.hpp"
#include "np.hpp"
#include <cstring>
#include <neso_particles/mesh_hierarchy_data/mesh_hierarchy_data.hpp>
using namespace np;
using namespace NESO::Particles::MeshHierarchyData;

namespace {

struct Obj : public SerialInterface {
  INT tag{0};
  std::vector<char> s;
  std::size_t get_num_bytes() const override { return sizeof(INT) + s.size(); }
  void serialise(std::byte *b, const std::size_t n) const override {
    if (n != get_num_bytes())
      std::abort();
    std::memcpy(b, &tag, sizeof(INT));
    if (!s.empty())
      std::memcpy(b + sizeof(INT), s.data(), s.size());
  }
  void deserialise(const std::byte *b, const std::size_t n) override {
    std::memcpy(&tag, b, sizeof(INT));
    s.resize(n - sizeof(INT));
    if (!s.empty())
      std::memcpy(s.data(), b + sizeof(INT), s.size());
  }
  bool operator<(const Obj &o) const {
    return tag != o.tag ? tag < o.tag : s < o.s;
  }
  bool operator==(const Obj &o) const { return tag == o.tag && s == o.s; }
};

struct MH {
  int ndim, sub;
  std::vector<int> dims;
  std::vector<double> origin;
  double extent;
  INT nf, ncell;
  int n[3] = {1, 1, 1}; // fine cells per dimension over the whole mesh
  std::shared_ptr<MeshHierarchy> mh;
  ~MH() {
    if (mh)
      mh->free();
  }
  void gen(Gen &g) {
    ndim = 1 + (int)g.draw(3);
    sub = (int)g.draw(ndim == 3 ? 3 : 4);
    nf = 1;
    for (int i = 0; i < sub; i++)
      nf *= 2;
    const bool nice = g.boolean();
    extent = nice ? g.pick<double>({1.0, 2.0, 0.5}) : g.real(0.01, 30.0);
    ncell = 1;
    for (int d = 0; d < ndim; d++) {
      dims.push_back(1 + (int)g.draw(ndim == 1 ? 40 : ndim == 2 ? 7 : 4));
      origin.push_back(nice ? (double)g.integer(-4, 4) : g.real(-20, 20));
      n[d] = dims[d] * (int)nf;
      ncell *= n[d];
    }
    mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, ndim, dims, origin,
                                         extent, sub);
    g.note("hierarchy dims ", np::str(dims), " order ", sub, " extent ", extent,
           " origin ", np::str(origin), " ranks ", nranks());
  }
  // Cartesian index of a linear index according to its tuple.
  std::vector<INT> cart(INT lin) const {
    INT t[6] = {0, 0, 0, 0, 0, 0};
    mh->linear_to_tuple_global(lin, t);
    std::vector<INT> c(3, 0);
    for (int d = 0; d < ndim; d++)
      c[d] = t[d] * nf + t[ndim + d];
    return c;
  }
};

void indices(Gen &g, MH &m) {
  auto &mh = *m.mh;
  g.ck(mh.ncells_global == m.ncell, "ncells_global ", mh.ncells_global,
       " expected ", m.ncell);
  INT nc = 1, nff = 1;
  for (int d = 0; d < m.ndim; d++)
    nc *= m.dims[d], nff *= m.nf;
  g.ck(mh.ncells_coarse == nc && mh.ncells_fine == nff &&
           mh.ncells_dim_fine == m.nf,
       "cell counts coarse ", mh.ncells_coarse, " fine ", mh.ncells_fine);
  std::vector<char> hit((std::size_t)m.ncell, 0);
  auto mapper = std::make_shared<MeshHierarchyMapper>(target(), m.mh);
  auto hm = mapper->get_host_mapper();
  // every tuple -> linear is a bijection, and inverse to linear_to_tuple
  for (INT c = 0; c < m.ncell; c++) {
    INT q = c, cart[3] = {0, 0, 0}, t[6], u[6], mt[6], mc[3];
    for (int d = 0; d < m.ndim; d++) {
      cart[d] = q % m.n[d];
      q /= m.n[d];
      t[d] = cart[d] / m.nf;
      t[m.ndim + d] = cart[d] % m.nf;
    }
    const INT lin = mh.tuple_to_linear_global(t);
    if (!g.ck(lin >= 0 && lin < m.ncell && !hit[lin],
              "tuple_to_linear_global of cell ", c, " gives ", lin,
              " which is out of range or taken"))
      return;
    hit[lin] = 1;
    mh.linear_to_tuple_global(lin, u);
    for (int d = 0; d < 2 * m.ndim; d++)
      if (!g.ck(u[d] == t[d], "linear_to_tuple_global(", lin, ") component ", d,
                " is ", u[d], " expected ", t[d]))
        return;
    const INT lc = mh.tuple_to_linear_coarse(t),
              lf = mh.tuple_to_linear_fine(t + m.ndim);
    mh.linear_to_tuple_coarse(lc, u);
    mh.linear_to_tuple_fine(lf, u + m.ndim);
    for (int d = 0; d < 2 * m.ndim; d++)
      if (!g.ck(u[d] == t[d], "coarse or fine round trip of component ", d))
        return;
    g.ck(lc >= 0 && lc < nc && lf >= 0 && lf < nff && lc * nff + lf == lin,
         "coarse index ", lc, " fine index ", lf, " linear ", lin);
    g.ck(hm.tuple_to_linear_global(t) == lin &&
             hm.tuple_to_linear_coarse(t) == lc &&
             hm.tuple_to_linear_fine(t + m.ndim) == lf,
         "MeshHierarchyMapper and MeshHierarchy disagree on cell ", lin);
    hm.map_tuple_to_cart_tuple(t, mc);
    hm.cart_tuple_to_tuple(cart, mt);
    for (int d = 0; d < m.ndim; d++)
      if (!g.ck(mc[d] == cart[d] && mt[d] == t[d] &&
                    mt[m.ndim + d] == t[m.ndim + d],
                "Cartesian tuple conversion of cell ", lin))
        return;
  }
  g.mark(m.ncell > 1);
}

void points(Gen &g, MH &m) {
  auto mapper = std::make_shared<MeshHierarchyMapper>(target(), m.mh);
  auto hm = mapper->get_host_mapper();
  auto dm = mapper->get_device_mapper();
  const double w = m.extent / (double)m.nf;
  const int N = 60;
  const uint64_t salt = g.seed32();
  const int kind = (int)g.draw(3);
  std::vector<REAL> pos(3 * N, 0.0);
  std::vector<INT> want(3 * N, 0), notr(3 * N, 0);
  std::vector<char> strict(3 * N, 1);
  for (int i = 0; i < N; i++)
    for (int d = 0; d < m.ndim; d++) {
      const uint64_t h = pbt::hash(salt, i, d);
      const INT c = (INT)(h % (uint64_t)m.n[d]);
      double f = 0.001 + 0.998 * (double)((h >> 20) % 1000001) / 1000001.0;
      if (kind == 1 && i % 3 == 0) { // on a grid line
        f = 0.0;
        strict[3 * i + d] = 0;
      }
      if (kind == 2 && i % 3 == 0) { // the upper end of the mesh
        pos[3 * i + d] = m.origin[d] + m.dims[d] * m.extent;
        want[3 * i + d] = m.n[d] - 1;
        notr[3 * i + d] = m.n[d];
        strict[3 * i + d] = 2;
        continue;
      }
      pos[3 * i + d] = m.origin[d] + ((double)c + f) * w;
      want[3 * i + d] = c;
      notr[3 * i + d] = c;
    }
  BufferDevice<REAL> dp(target(), pos);
  BufferDevice<INT> dt(target(), (std::size_t)(6 * N)), dn(target(), (std::size_t)(3 * N));
  {
    auto *p = dp.ptr;
    auto *t = dt.ptr;
    auto *nn = dn.ptr;
    target()
        ->queue
        .parallel_for(sycl::range<1>(N),
                      [=](sycl::id<1> i) {
                        dm.map_to_tuple(p + 3 * i[0], t + 6 * i[0]);
                        dm.map_to_cart_tuple_no_trunc(p + 3 * i[0], nn + 3 * i[0]);
                      })
        .wait_and_throw();
  }
  auto t = dt.get();
  auto nn = dn.get();
  for (int i = 0; i < N; i++) {
    INT ht[6], hn[3];
    hm.map_to_tuple(&pos[3 * i], ht);
    hm.map_to_cart_tuple_no_trunc(&pos[3 * i], hn);
    for (int d = 0; d < m.ndim; d++) {
      const int s = strict[3 * i + d];
      const INT w0 = want[3 * i + d];
      auto okc = [&](INT c) { return c == w0 || (s == 0 && c == w0 - 1); };
      auto okn = [&](INT c) {
        return c == notr[3 * i + d] || (s != 1 && c == notr[3 * i + d] - 1);
      };
      const INT c0 = t[6 * i + d] * m.nf + t[6 * i + m.ndim + d];
      const INT c1 = ht[d] * m.nf + ht[m.ndim + d];
      for (INT c : {c0, c1})
        if (!g.ck(okc(c) || (s == 0 && w0 == 0 && c == 0),
                  "map_to_tuple of coordinate ", pos[3 * i + d], " dimension ",
                  d, " gives cell ", c, " expected ", w0))
          return;
      for (INT c : {nn[3 * i + d], hn[d]})
        if (!g.ck(okn(c), "map_to_cart_tuple_no_trunc of coordinate ",
                  pos[3 * i + d], " gives ", c, " expected ", notr[3 * i + d]))
          return;
    }
  }
  // points outside the mesh for the untruncated map
  for (int i = 0; i < 20; i++) {
    REAL p[3] = {0, 0, 0};
    INT c[3], e[3];
    for (int d = 0; d < m.ndim; d++) {
      const uint64_t h = pbt::hash(salt, i, d, 9);
      e[d] = (INT)(h % (uint64_t)(4 * m.n[d] + 1)) - 2 * m.n[d];
      p[d] = m.origin[d] + ((double)e[d] + 0.01 + 0.98 * ((h >> 30) % 1000) / 1000.0) * w;
    }
    hm.map_to_cart_tuple_no_trunc(p, c);
    for (int d = 0; d < m.ndim; d++)
      if (!g.ck(c[d] == e[d], "map_to_cart_tuple_no_trunc of ", p[d], " gives ",
                c[d], " expected ", e[d]))
        return;
  }
  g.mark();
}

std::set<INT> serial_neighbours(MH &m, INT cell, INT off, bool pbc,
                                const std::map<std::vector<INT>, INT> &lin) {
  std::set<INT> out;
  auto c = m.cart(cell);
  INT lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
  for (int d = 0; d < m.ndim; d++)
    lo[d] = -off, hi[d] = off;
  for (INT a = lo[0]; a <= hi[0]; a++)
    for (INT b = lo[1]; b <= hi[1]; b++)
      for (INT e = lo[2]; e <= hi[2]; e++) {
        std::vector<INT> q = {c[0] + a, c[1] + b, c[2] + e};
        bool in = true;
        for (int d = 0; d < m.ndim; d++) {
          if (q[d] < 0 || q[d] >= m.n[d])
            in = in && pbc;
          q[d] = ((q[d] % m.n[d]) + m.n[d]) % m.n[d];
        }
        if (!in)
          continue;
        const INT l = lin.at(q);
        if (l != cell)
          out.insert(l);
      }
  return out;
}
void neighbours(Gen &g, MH &m) {
  std::map<std::vector<INT>, INT> lin;
  for (INT c = 0; c < m.ncell; c++)
    lin[m.cart(c)] = c;
  const INT off = (INT)g.draw(m.ndim == 3 ? 4 : 7);
  const bool pbc = g.boolean();
  const int k = 1 + (int)g.draw(4);
  const uint64_t salt = g.seed32();
  std::vector<INT> cells, extra;
  std::set<INT> all;
  for (int i = 0; i < k; i++) {
    const INT c = (INT)(pbt::hash(salt, i) % (uint64_t)m.ncell);
    std::set<INT> got = {c == 0 ? m.ncell : (INT)-5};
    const std::set<INT> keep = got;
    get_neighbour_mh_cells(m.mh, c, off, pbc, got);
    auto want = serial_neighbours(m, c, off, pbc, lin);
    for (INT x : want)
      all.insert(x);
    want.insert(keep.begin(), keep.end());
    if (!g.ck(got == want, "neighbours of cell ", c, " within ", off,
              pbc ? " periodic" : "", ": ",
              np::str(std::vector<INT>(got.begin(), got.end())), " expected ",
              np::str(std::vector<INT>(want.begin(), want.end()))))
      return;
    cells.push_back(c);
    all.insert(c);
  }
  for (int i = 0; i < (int)g.draw(3); i++) {
    extra.push_back((INT)(pbt::hash(salt, i, 5) % (uint64_t)m.ncell));
    all.insert(extra.back());
  }
  std::vector<INT> out = {3, 1, 4};
  get_neighbour_mh_cells(m.mh, cells, extra, off, pbc, out);
  g.ck(std::set<INT>(out.begin(), out.end()) == all && out.size() == all.size(),
       "neighbours of cells ", np::str(cells), " extra ", np::str(extra),
       " within ", off, pbc ? " periodic" : "", ": ", np::str(out),
       " expected ", np::str(std::vector<INT>(all.begin(), all.end())));
  g.note("neighbours offset ", off, " pbc ", pbc);
  g.mark(m.ncell > 1 && off > 0);
}

// Ranks claim cells in several epochs; returns the owner every rank expects.
std::vector<int> claims(Gen &g, MH &m) {
  const int R = nranks(), me = rank();
  std::vector<int> owner;
  const int epochs = 1 + (int)g.draw(3);
  for (int e = 0; e < epochs && !g.failed; e++) {
    const uint64_t salt = g.seed32();
    const int wk = (int)g.draw(5);
    const int den = g.pick<int>({1, 2, 8});
    const bool twice = g.boolean();
    auto claimed = [&](int r, INT c, int rep) {
      return (rep == 0 || twice) && pbt::hash(salt, r, c, rep) % (uint64_t)den == 0;
    };
    auto weight = [&](int r, INT c, int rep) -> int {
      const uint64_t h = pbt::hash(salt ^ 77, r, c, rep);
      return wk == 0   ? 1
             : wk == 1 ? 1 + (int)(h % 3)
             : wk == 2 ? 1 + (int)(h % 2147483645ull)
             : wk == 3 ? 2147483646
                       : 2147483646 - (int)(h % 2);
    };
    owner.assign((std::size_t)m.ncell, -1);
    for (INT c = 0; c < m.ncell; c++) {
      int best = 0;
      for (int r = 0; r < R; r++)
        for (int rep = 0; rep < 2; rep++)
          if (claimed(r, c, rep) && weight(r, c, rep) >= best) {
            best = weight(r, c, rep);
            owner[c] = r;
          }
    }
    m.mh->claim_initialise();
    const bool back = pbt::hash(salt, me, 123) & 1;
    for (int rep = 0; rep < 2; rep++)
      for (INT q = 0; q < m.ncell; q++) {
        const INT c = back ? m.ncell - 1 - q : q;
        if (claimed(me, c, rep))
          m.mh->claim_cell(c, weight(me, c, rep));
      }
    m.mh->claim_finalise();
    g.note("claims: weights ", wk, " one in ", den, twice ? " twice" : "");
    std::vector<INT> tuples;
    std::vector<int> got((std::size_t)m.ncell, -7);
    for (INT c = 0; c < m.ncell; c++) {
      const int o = m.mh->get_owner(c);
      if (!g.ck(owner[c] < 0 ? o < 0 : o == owner[c], "epoch ", e, " cell ", c,
                " has owner ", o, " on rank ", me, " expected ", owner[c]))
        break;
      INT t[6];
      m.mh->linear_to_tuple_global(c, t);
      tuples.insert(tuples.end(), t, t + 2 * m.ndim);
    }
    if (!g.failed) {
      m.mh->get_owners((int)m.ncell, tuples.data(), got.data());
      for (INT c = 0; c < m.ncell; c++)
        if (!g.ck(owner[c] < 0 ? got[c] < 0 : got[c] == owner[c],
                  "get_owners cell ", c, " gives ", got[c], " expected ",
                  owner[c]))
          break;
    }
    g.mark();
    g.sync();
  }
  return owner;
}

void container(Gen &g, MH &m, const std::vector<int> &owner) {
  const int R = nranks(), me = rank();
  const uint64_t salt = g.seed32();
  const int den = g.pick<int>({1, 2, 5, 30});
  const int maxobj = (int)g.size(0, 5), maxlen = g.pick<int>({0, 3, 40, 3000});
  const int silent = (int)g.draw(R + 1); // a rank that contributes nothing
  auto count = [&](int r, INT c) -> int {
    const uint64_t h = pbt::hash(salt, r, c);
    return (r == silent || h % (uint64_t)den) ? -1
                                              : (int)((h >> 8) % (uint64_t)(maxobj + 1));
  };
  auto obj = [&](int r, INT c, int i) {
    Obj o;
    o.tag = ((INT)r * 100000 + c) * 100 + i;
    const uint64_t h = pbt::hash(salt, r, c, i + 1000);
    o.s.resize(h % (uint64_t)(maxlen + 1));
    for (std::size_t k = 0; k < o.s.size(); k++)
      o.s[k] = (char)(h >> (k % 50));
    return o;
  };
  std::map<INT, std::vector<Obj>> data;
  const INT lim = std::min<INT>(m.ncell, 200);
  for (INT c = 0; c < lim; c++) {
    const int k = count(me, c);
    if (k < 0)
      continue;
    auto &v = data[c];
    for (int i = 0; i < k; i++)
      v.push_back(obj(me, c, i));
  }
  MeshHierarchyContainer<Obj> mhc(m.mh, data);
  const int rounds = 1 + (int)g.draw(3);
  std::set<INT> have;
  for (int q = 0; q < rounds && !g.failed; q++) {
    const uint64_t rs = g.seed32();
    const int rden = g.pick<int>({1, 3, 10});
    const int idle = (int)g.draw(R + 1);
    const bool dup = g.boolean();
    std::vector<INT> want;
    if (me != idle)
      for (INT c = 0; c < std::min<INT>(m.ncell, 220); c++)
        if (pbt::hash(rs, me, c) % (uint64_t)rden == 0) {
          want.push_back(c);
          if (dup)
            want.push_back(c);
        }
    if (pbt::hash(rs, me, 99, 1) & 1)
      std::reverse(want.begin(), want.end());
    mhc.gather(want);
    have.insert(want.begin(), want.end());
    for (INT c : have) {
      std::vector<Obj> e;
      if (owner[c] >= 0 && c < lim)
        for (int r = 0; r < R; r++)
          for (int i = 0; i < count(r, c); i++)
            e.push_back(obj(r, c, i));
      std::vector<Obj> got(2);
      mhc.get(c, got);
      std::sort(got.begin(), got.end());
      std::sort(e.begin(), e.end());
      if (!g.ck(got == e, "round ", q, " rank ", me, " cell ", c, " owner ",
                owner[c], " holds ", got.size(), " objects, expected ",
                e.size(), got.size() == e.size() ? " (contents differ)" : ""))
        break;
      g.mark(!e.empty());
    }
    g.note("gather round ", q, " cells here ", want.size());
    g.sync();
  }
  mhc.free();
}

void prop(Gen &g) {
  gen_nodes(g, nranks());
  MH m;
  m.gen(g);
  const int what = (int)g.draw(4);
  if (what == 0)
    indices(g, m);
  else if (what == 1)
    points(g, m);
  else if (what == 2)
    neighbours(g, m);
  else {
    auto owner = claims(g, m);
    if (!g.failed)
      container(g, m, owner);
  }
  g.label(what == 0   ? "indices"
          : what == 1 ? "points"
          : what == 2 ? "neighbours"
                      : "claims and data");
}

} // namespace

PBT_MAIN("C13", prop)
